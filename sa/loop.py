"""Loops: natural loops of a MIR body, and summaries of their iterations.

The state at the head after k iterations is guessed from the states after one and two iterations (every integer is
affine in k or unknown) and the guess is verified by analysing one more iteration from it."""
import time
from dom import *
from poly import P, p, ZERO, ONE, prove, div_exact


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]] + ([t[3]] if isinstance(t[3], int) else [])
    if k == "call":
        return ([t[4]] if t[4] is not None else []) + ([t[5]] if isinstance(t[5], int) else [])
    if k == "assert":
        return [t[3]] + ([t[4]] if isinstance(t[4], int) else [])
    return [x for x in t[1:] if isinstance(x, int)] if k == "other" else []


def find(body):
    """{head block: blocks of the natural loop}"""
    bl = body["blocks"]
    suc = [succs(b[1]) for b in bl]
    pred = [[] for _ in bl]
    for i, ss in enumerate(suc):
        for x in ss:
            pred[x].append(i)
    state, back = {}, []
    stack = [(0, iter(suc[0]))]
    state[0] = 1
    while stack:
        n, it = stack[-1]
        for x in it:
            if x not in state:
                state[x] = 1
                stack.append((x, iter(suc[x])))
                break
            if state[x] == 1:
                back.append((n, x))
        else:
            state[n] = 2
            stack.pop()
    loops = {}
    for n, h in back:
        s = loops.setdefault(h, {h})
        todo = [n]
        while todo:
            y = todo.pop()
            if y not in s:
                s.add(y)
                todo += pred[y]
    return {h: frozenset(s) for h, s in loops.items()}


class Fail(Exception):
    pass


def remap(v, om, f):
    """renames objects and maps integers inside a value"""
    if isinstance(v, P):
        return f(v)
    if isinstance(v, Ptr):
        return Ptr(om.get(v.obj, v.obj), v.path, None if v.off is None else f(v.off),
                   f(v.meta) if isinstance(v.meta, P) else v.meta, v.gen)
    if isinstance(v, VecV):
        return VecV(om.get(v.obj, v.obj), v.gen, f(v.len), f(v.cap), v.ety)
    if isinstance(v, tuple):
        if hasattr(v, "_fields"):
            return type(v)(*[remap(x, om, f) for x in v])
        return tuple(remap(x, om, f) for x in v)
    return v


def objs(v, out):
    if isinstance(v, (Ptr, VecV)):
        if v.obj is not None:
            out.append(v.obj)
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                objs(x, out)


def rids(v, out):
    """resources named inside a value"""
    if isinstance(v, tuple):
        if isinstance(v, Tok):
            out.add(v.rid)
        elif isinstance(v, Seg):
            if v.w[0] == "res":
                out.add(v.w[1])
        else:
            for x in v:
                rids(x, out)


def normal(st):
    """heap objects renamed by order of reachability; unreachable dead objects dropped; integers normalised"""
    order = []
    seen = set()
    todo = sorted((k for k in st.mem if k[0] != "H"), key=repr)
    while todo:
        k = todo.pop(0)
        if k in seen or k not in st.mem:
            continue
        seen.add(k)
        if k[0] == "H":
            order.append(k)
        o = st.mem[k]
        out = []
        objs(o.val if isinstance(o, Cell) else (), out)
        todo = out + todo
    for k in sorted((k for k in st.mem if k[0] == "H" and k not in seen), key=repr):
        if st.mem[k].alive:
            order.append(k)
        else:
            del st.mem[k]
    om = {k: ("H", i) for i, k in enumerate(order)}
    mem = {}
    for k, o in st.mem.items():
        if k[0] == "L" and isinstance(o, Cell) and o.val == UNIT:
            o = o._replace(val=UNINIT)      # nothing was stored, see load
        mem[om.get(k, k)] = remap(o, om, st.n)
    st.mem = mem
    for f in st.frames:
        if f.data is not None:
            pass
    st.led = {k: remap(v, om, st.n) for k, v in st.led.items() if k[0] != "div"}
    st.res = {k: remap(v, om, st.n) for k, v in st.res.items()}
    old = [k for k, r in st.res.items() if r.copy and k[0] == "in" and k[2] in ("zero", "a number")]
    if old:
        live = set()
        for o in st.mem.values():
            rids(o, live)
        st.res = {k: r for k, r in st.res.items() if k not in old or k in live}
    fs = []
    for x in st.facts:
        x = st.n(x)
        if x not in fs:
            fs.append(x)
    st.facts = fs
    st.nes = [st.n(x) for x in st.nes]
    st.npanic = 0
    return st


class Gen:
    """builds the general state from the states after one (a) and two (b) iterations"""

    def __init__(self, a, b, old, kname, dropped, caps=False):
        self.a, self.b = a, b
        self.caps = caps        # capacities are unknown, apart from what every vector fulfils
        self.k = p(kname)
        self.kname = kname
        self.hav = {}
        self.forced = []
        self.old = old
        self.dropped = dropped
        self.down = []          # what counts down, and stays above zero
        self.loose = False      # something differs between iterations in a way that is not kept

    def free(self, v, w):
        """the capacities of vectors"""
        for x, y in zip(*[capacities(z) for z in (v, w)]):
            for i, j in zip(x, y):
                if (i.const() is None or i != j) and (i, j) not in self.hav:
                    self.hav[(i, j)] = "%sh%d" % (self.kname, len(self.hav))
                    self.forced.append((i, j))

    def pp(self, x, y):
        for u, v in self.forced:
            q = div_exact(x, u)
            if q is not None and q.t and q == div_exact(y, v) and all(z in self.old for z in q.syms()):
                return q * p(self.hav[(u, v)])
        if x == y and all(z in self.old for z in x.syms()):
            return x
        if all(z in self.old for z in x.syms() | y.syms()):
            d = y - x
            if d.const() is not None and d.const() < 0 and x + (self.k - 1) * d not in self.down:
                self.down.append(x + (self.k - 1) * d)
            return x + (self.k - 1) * d
        key = (x, y)
        if key not in self.hav and (x.sym() is None or y.sym() is None):
            # the same expression over values that differ in every iteration
            for old in (False, True):
                mx, my = {}, {}
                for (u, v), h in list(self.hav.items()):
                    u, v = u.sym(), v.sym()
                    if u is not None and v is not None and (old or u not in self.old):
                        mx.setdefault(u, p(h))
                        my.setdefault(v, p(h))
                if mx:
                    u, v = x.subst(mx), y.subst(my)
                    ok = self.old | set(self.hav.values())
                    if all(z in ok for z in u.syms() | v.syms()) and all(z in self.old for z in (v - u).syms()):
                        return u + (self.k - 1) * (v - u)
        if key not in self.hav:
            self.hav[key] = "%sh%d" % (self.kname, len(self.hav))
        return p(self.hav[key])

    def singles(self, x, y):
        """pairs of single values first: the others may be expressed with them"""
        if isinstance(x, P) and isinstance(y, P):
            if x.sym() is not None and y.sym() is not None:
                self.pp(x, y)
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            for i, j in zip(x, y):
                self.singles(i, j)

    def walk(self, x, y):
        if isinstance(x, P) and isinstance(y, P):
            return self.pp(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and type(x) is type(y):
            if len(x) != len(y):
                x, y = padded(x, y)
            if type(x) is tuple and len(x) == 2 and x[0] == "sym" and y[0] == "sym":
                if x != y:
                    self.loose = True
                return ("sym", self.kname + "any")
            if hasattr(x, "_fields"):
                r = type(x)(*[self.walk(i, j) for i, j in zip(x, y)])
                if isinstance(r, Agg) and len(r.fields) == 2 and isinstance(r.fields[0], P) and isinstance(r.fields[1], P):
                    d = r.fields[1] - r.fields[0]       # the rest of a range
                    if self.kname in d.syms() and d not in self.down:
                        self.down.append(d)
                return r
            return tuple(self.walk(i, j) for i, j in zip(x, y))
        if x == y and type(x) is type(y):
            return x
        raise Fail("%s against %s" % (str(x)[:60], str(y)[:60]))

    def build(self):
        a, b = self.a, self.b
        if set(a.mem) != set(b.mem):
            raise Fail("different objects")
        g = b.copy()
        if self.caps:
            for k in a.mem:
                self.free(a.mem[k], b.mem[k])
            if not self.forced:
                raise Fail("no capacity")
        try:
            for k in a.mem:
                self.singles(a.mem[k], b.mem[k])
        except Fail:
            pass
        g.mem = {}
        for k in a.mem:
            x, y = a.mem[k], b.mem[k]
            try:
                g.mem[k] = self.walk(x, y)
            except Fail:
                if k[0] == "L" and isinstance(x, Cell) and x.val is not UNINIT and self.temp(k):
                    g.mem[k] = Cell(x.kind, x.ty, HAVOC, x.alive)
                    self.loose = True
                else:
                    raise
        if set(a.res) != set(b.res) or set(a.led) != set(b.led):
            raise Fail("different resources")
        g.res = {k: self.walk(a.res[k], b.res[k]) for k in a.res}
        g.led = {k: self.walk(a.led[k], b.led[k]) for k in a.led}
        if a.tsub != b.tsub:
            raise Fail("different type knowledge")
        g.tne = a.tne & b.tne
        g.bools = {k: v for k, v in a.bools.items() if b.bools.get(k) == v}
        g.nes = [x for x in a.nes if x in b.nes]
        g.sub = dict(b.sub)
        facts = [self.k - 1, UMAX - self.k]
        fa = [x for x in a.facts]
        fb = [x for x in b.facts]
        for x in fa:
            if x in fb and all(z in self.old for z in x.syms()):
                facts.append(x)
        la = [x for x in fa if x not in facts]
        lb = [x for x in fb if x not in facts]
        # facts that move with the iterations
        for x in fa:
            for y in fb:
                if x != y and all(z in self.old for z in (x.syms() | y.syms())):
                    d = y - x
                    if len(d.t) <= 2 if x in la and y in lb else d.const() in (-1, -2):
                        facts.append(x + (self.k - 1) * d)
        facts += [x for x in self.down if x not in facts]
        # facts about values that differ in every iteration
        inv = {}
        for (x, y), h in self.hav.items():
            s = y.sym()
            if s is not None:
                inv.setdefault(s, p(h))
        for y in fb:
            if inv and any(z in inv for z in y.syms()):
                z = y.subst(inv)
                if all(q in self.old or q in self.hav.values() for q in z.syms()):
                    facts.append(z)
        g.facts = []
        first = {h: x for (x, y), h in self.hav.items()}
        first[self.kname] = p(1)
        if self.caps:
            # what every vector fulfils
            for o in g.mem.values():
                for n, cap, size in invariants(o, g):
                    facts += [x for x in (cap - n, cap - 1, IMAX - cap, IMAX - size) if x not in facts]
        for x in facts:
            if x not in fa and not a.prove(x.subst(first)):
                continue
            if x not in g.facts and x not in self.dropped and not all(c >= 0 for c in x.t.values()):
                g.facts.append(x)
        if self.caps:
            g.sized()
        g.notes = self.a.notes
        g.fuzzy = True
        g.spos, g.script = 0, ()
        return g

    def temp(self, k):
        return True


def padded(x, y):
    """the same number of runs: room that is full is an empty run without values"""
    if len(x) > len(y):
        y, x = padded(y, x)
        return x, y
    if len(y) == len(x) + 1 and x and all(type(i) is Seg for i in x + y) and y[-1].w == ("raw",):
        return x + (Seg(x[-1].e, x[-1].e, ("raw",)),), y
    raise Fail("different shapes")


def vecs(v):
    """vectors inside a value: (pointer, length, capacity)"""
    if isinstance(v, VecV):
        yield v.obj, v.len, v.cap
    elif isinstance(v, Agg) and len(v.fields) == 4 and isinstance(v.fields[0], Ptr) and isinstance(v.fields[1], P) and isinstance(v.fields[2], P):
        yield v.fields[0].obj, v.fields[1], v.fields[2]
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from vecs(x)


def capacities(o):
    return [(c,) for _, n, c in vecs(o)]


def invariants(o, st):
    for k, n, c in vecs(o):
        b = st.mem.get(k)
        if isinstance(b, Buf) and isinstance(n, P):
            yield n, c, b.size


class Bind:
    """checks that a state is an instance of the general state one iteration later"""

    def __init__(self, g, gen, s):
        self.g, self.gen, self.s = g, gen, s
        self.b = {gen.kname: gen.k + 1}
        self.hs = set(gen.hav.values())
        self.later = []

    def match(self, e, v):
        if e is HAVOC:
            return
        if isinstance(e, P) and isinstance(v, P):
            h = e.sym()
            if h in self.hs and h not in self.b:
                self.b[h] = self.s.n(v)
                return
            if self.later is not None and any(z in self.hs and z not in self.b for z in e.syms()):
                self.later.append((e, v))
                return
            x = e.subst(self.b)
            if not self.s.eq(x, v):
                raise Fail("%s is not %s" % (v, x))
            return
        if e is v:
            if isinstance(e, tuple):
                for i in e:
                    self.match(i, i)
            return
        if type(e) is tuple and type(v) is tuple and e and all(type(i) is Seg for i in e) and all(type(i) is Seg for i in v):
            # runs that are empty in this state may be missing
            i = 0
            for q in e:
                if len(v) != len(e) and self.empty(q) and not (i < len(v) and self.s.eq(v[i].s, v[i].e)):
                    continue
                if i >= len(v):
                    raise Fail("fewer runs")
                self.match(tuple(q), tuple(v[i]))
                i += 1
            if i != len(v):
                raise Fail("more runs")
            return
        if isinstance(e, tuple) and isinstance(v, tuple) and type(e) is type(v) and len(e) == len(v):
            if type(e) is tuple and len(e) == 2 and e[0] == "sym" and str(e[1]).endswith("any"):
                return
            for i, j in zip(e, v):
                self.match(i, j)
            return
        if type(e) is type(v) and e == v:
            return
        raise Fail("%s is not %s" % (str(v)[:60], str(e)[:60]))

    def empty(self, q):
        a, b = q.s.subst(self.b), q.e.subst(self.b)
        if any(h in self.hs and h not in self.b for h in a.syms() | b.syms()):
            return False
        return self.s.eq(a, b)

    def check(self):
        g, s = self.g, self.s
        if set(g.mem) != set(s.mem):
            raise Fail("objects")
        for k in g.mem:
            e = g.mem[k]
            if isinstance(e, Cell) and e.val is HAVOC:
                continue
            self.match(e, s.mem[k])
        if set(g.res) != set(s.res) or set(g.led) != set(s.led):
            raise Fail("resources")
        for k in g.res:
            self.match(g.res[k], s.res[k])
        for k in g.led:
            self.match(g.led[k], s.led[k])
        later, self.later = self.later, None
        for e, v in later:
            self.match(e, v)
        if g.tsub != s.tsub or not g.tne <= s.tne:
            raise Fail("types")
        for k, v in g.bools.items():
            if s.bools.get(k) != v:
                raise Fail("condition")
        bad = []
        for f in g.facts:
            x = f.subst(self.b)
            if any(h in self.hs and h not in self.b for h in x.syms()):
                bad.append(f)
            elif not s.prove(x):
                bad.append(f)
        for x in g.nes:
            y = x.subst(self.b)
            if s.decide(("eq", y)) is not False:
                g.nes = [z for z in g.nes if z != x]
                bad.append(x)
        return bad


def dedupe(states):
    out, keys = [], set()
    for s in states:
        k = (repr(sorted(s.mem.items(), key=repr)), repr(sorted(s.led.items(), key=repr)), repr(sorted(map(repr, s.facts))), repr(s.sub))
        if k not in keys:
            keys.add(k)
            out.append(s)
    return out


class LoopTime(Exception):
    """a loop takes more than its share of the time"""


def run(eng, s0, blocks):
    exits = []
    if eng.loop_until is not None:
        walk(eng, s0, blocks, exits)
        return exits
    eng.loop_until = time.time() + eng.seconds / 4
    try:
        walk(eng, s0, blocks, exits)
    except LoopTime:
        eng.undec(s0, "a loop takes too long")
    finally:
        eng.loop_until = None
    return exits


def walk(eng, s0, blocks, exits):
    depth = len(s0.frames)
    head = s0.frames[-1].bb

    def it(s):
        n, e = eng.explore(s.copy(), depth, blocks, head)
        for x in n:
            normal(x)
        return dedupe(n), e
    normal(s0)
    n1, e = it(s0)
    exits += e
    if len(n1) > 8:
        eng.undec(s0, "too many paths through a loop")
        return
    old = all_syms(s0)
    todo = [(a, 0) for a in n1]
    seen = 0
    while todo:
        a, peeled = todo.pop(0)
        seen += 1
        n2, e = it(a)
        exits += e
        if not n2:
            continue
        found = eng.events, eng.undecs, eng.suspects
        found = tuple(dict(x) for x in found)
        try:
            ex, err = general(eng, a, n2, old, it)
        except BaseException:
            # what an attempt met does not count
            eng.events, eng.undecs, eng.suspects = found
            raise
        if ex is not None:
            exits += ex
        elif peeled < 2 and seen + len(todo) + len(n2) < 14:
            # the first iterations may differ from the later ones
            todo += [(b, peeled + 1) for b in n2]
        else:
            # what the first iterations did still counts
            eng.undec(s0, "loop: " + (err or "no invariant"))


def general(eng, a, n2, old, it):
    """a state that covers a and everything reached from it at the loop head: (the exits from it, None) or (None, reason)"""
    err = None
    cands = []
    # sizes and alignments of types are constants, whenever they are first mentioned
    old = old | set(all_syms(a)) | {y for s in n2 for y in all_syms(s) if y[:2] in ("A:", "S:")}
    # where a vector grows on some paths, its capacity is not a simple function of the number of iterations
    caps = [[c for k in sorted(x.mem, key=repr) for c in capacities(x.mem[k])] for x in [a] + n2]
    modes = (True, False) if any(x != caps[0] for x in caps) else (False, True)
    for b, caps in [(b, x) for x in modes for b in n2]:
        if caps != modes[0] and any(not x[0] for x in cands):
            break
        dropped = set()
        for _ in range(6):
            eng.kcount = getattr(eng, "kcount", 0) + 1
            gen = Gen(a, b, old, "k%d" % eng.kcount, {x for x in dropped}, caps)
            try:
                g = gen.build()
            except Fail as x:
                err = str(x)
                break
            # dropped facts are stated with the symbol of an earlier attempt
            g.facts = [f for f in g.facts if canon(f, gen.kname) not in dropped]
            g.nes = [f for f in g.nes if canon(f, gen.kname) not in dropped]
            ev, un, su = dict(eng.events), dict(eng.undecs), dict(eng.suspects)
            n3, e3 = it(g)
            bad = set()
            fail = None
            for c in n3:
                try:
                    for f in Bind(g, gen, c).check():
                        bad.add(canon(f, gen.kname))
                except Fail as x:
                    fail = str(x)
                    break
                except Split:
                    fail = "undecided comparison"
                    break
            if fail:
                err = fail
                eng.events, eng.undecs, eng.suspects = ev, un, su
                break
            if bad:
                eng.events, eng.undecs, eng.suspects = ev, un, su
                dropped |= bad
                continue
            if not a.fuzzy and exact(gen, g, n3):
                eng.events, eng.undecs, eng.suspects = dict(ev), dict(un), dict(su)
                g.fuzzy = False
                n3, e3 = it(g)
            w = sum(1 for f in g.facts if gen.kname in f.syms())
            # too little may be known about the state
            bad = (len(eng.undecs) > len(un) or len(eng.suspects) > len(su))
            cands.append((bad, w, e3, (eng.events, eng.undecs, eng.suspects)))
            eng.events, eng.undecs, eng.suspects = ev, un, su
            break
        if cands and not cands[-1][0] and cands[-1][1] > 1:
            break
    if not cands:
        return None, err
    bad, w, e3, found = max(cands, key=lambda x: (not x[0], x[1]))
    eng.events, eng.undecs, eng.suspects = found
    return e3, None


def exact(gen, g, n3):
    """every state the general one describes is reached: one iteration can follow the other for as long as the facts
    of the general state allow. What an iteration needs to go on must not get easier from one to the next, and must be
    known for the last one; then it held for all before"""
    if gen.hav or gen.loose:
        return False
    a, k = gen.a, gen.k
    if any(not g.prove(f) for f in a.facts if gen.kname not in f.syms()):
        return False
    h = g.copy()
    h.facts = h.facts + [k - 2]
    ways = []
    for c in n3:
        if c.sub != g.sub or c.tsub != g.tsub or set(c.nes) - set(g.nes) or c.tne != g.tne:
            continue
        # only what an iteration made up for itself may be decided in it
        if any(not (b[1:].isdigit() and int(b[1:]) > g.nsym) for b in c.bools if b not in g.bools):
            continue
        ways.append(frozenset(f for f in c.facts if f not in g.facts))
    # cases that only differ in one distinction are one
    i = 0
    while i < len(ways) < 30:
        for w in ways[:i]:
            d, e = w - ways[i], ways[i] - w
            for x in d:
                if -x - 1 in e:
                    m = (w - {x}) | (ways[i] - {-x - 1})
                    if m not in ways:
                        ways.append(m)
        i += 1
    for w in ways:
        ok = True
        for f in w:
            if any(m.count(gen.kname) > 1 for m in f.t) or any(z.startswith(gen.kname) and z != gen.kname for z in f.syms()):
                ok = False
                break
            last = f.subst({gen.kname: k - 1})
            if not g.prove(last - f) or not h.prove(last):
                ok = False
                break
        if ok:
            return True
    return False


def canon(f, kname):
    return repr(P({tuple(sorted(y.replace(kname, "k#") if y.startswith(kname) else y for y in m)): c for m, c in f.t.items()}))


def psyms(v, out):
    if isinstance(v, P):
        out |= v.syms()
    elif isinstance(v, tuple):
        for x in v:
            psyms(x, out)


def all_syms(st):
    out = set()
    for o in st.mem.values():
        psyms(o, out)
    for x in st.facts + st.nes:
        out |= x.syms()
    for v in list(st.res.values()) + list(st.led.values()):
        psyms(v, out)
    for k, v in st.sub.items():
        out.add(k)
        out |= v.syms()
    return out
