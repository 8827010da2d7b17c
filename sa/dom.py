"""Abstract values, memory and states of the MIR analysis."""
import math
from collections import namedtuple
from poly import P, p, prove, Index, ZERO, ONE, div_exact

UMAX = p(2 ** 64 - 1)
IMAX = p(2 ** 63 - 1)

Ptr = namedtuple("Ptr", "obj path off meta gen")            # pointer/reference/Box; meta: slice length or None
Agg = namedtuple("Agg", "kind variant fields")              # struct, enum, tuple, closure, array
Tok = namedtuple("Tok", "rid off term")                     # one opaque value of a generic type (part of resource rid)
VT = namedtuple("VT", "rid tau")                            # a function table belonging to type tau
FnTok = namedtuple("FnTok", "kind tau")                     # an entry of a function table
Fn = namedtuple("Fn", "ty")                                 # zero sized function item
FnP = namedtuple("FnP", "inst")                             # pointer to a known function
Byt = namedtuple("Byt", "size segs")                        # inline storage as bytes
VecV = namedtuple("VecV", "obj gen len cap ety")            # Vec<T>
It = namedtuple("It", "kind a pos")                         # iterator
TId = namedtuple("TId", "term")                             # TypeId
Opq = namedtuple("Opq", "s")                                # value of no interest
Seg = namedtuple("Seg", "s e w")                            # bytes [s,e); w: ('res',rid,delta) ('gone',rid,delta) ('raw',)
Cell = namedtuple("Cell", "kind ty val alive")
Buf = namedtuple("Buf", "kind size align segs alive gen")
Res = namedtuple("Res", "term total copy owned what")


class Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = Mark("UNINIT")
HAVOC = Mark("HAVOC")
UNIT = Agg("tuple", 0, ())
TRUE, FALSE = ("c", True), ("c", False)


class Undec(Exception):
    """the analysis cannot tell on this path"""


class Split(Exception):
    """the current step must be redone with this condition decided"""

    def __init__(self, cond):
        self.cond = cond


class Choice(Exception):
    def __init__(self, n):
        self.n = n


class Dead(Exception):
    """this path ends here"""


class Frame:
    __slots__ = ("fn", "body", "loc", "bb", "ix", "pend", "inst", "native", "data", "active", "unw_from")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.body, f.loc, f.bb, f.ix = self.fn, self.body, self.loc, self.bb, self.ix
        f.pend, f.inst, f.native, f.data, f.unw_from = self.pend, self.inst, self.native, self.data, self.unw_from
        f.active = dict(self.active) if self.active else None
        return f


class St:
    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = []
        self.nes = []
        self.sub = {}
        self.tsub = {}
        self.tne = set()
        self.res = {}
        self.led = {}
        self.bools = {}
        self.notes = ()
        self.unw = False
        self.splits = 0
        self.npanic = 0
        self.pc = None
        self.nsym = 0
        self.terms = frozenset()
        self.zst = frozenset()
        self.fuzzy = False
        self.script = ()
        self.spos = 0
        self.ret = None
        self.world = None
        self.models = []

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts = list(self.facts)
        s.nes = list(self.nes)
        s.sub = dict(self.sub)
        s.tsub = dict(self.tsub)
        s.tne = set(self.tne)
        s.res = dict(self.res)
        s.led = dict(self.led)
        s.bools = dict(self.bools)
        s.notes = self.notes
        s.unw = self.unw
        s.splits = self.splits
        s.npanic = self.npanic
        s.pc = self.pc
        s.nsym = self.nsym
        s.terms, s.zst = self.terms, self.zst
        s.fuzzy = self.fuzzy
        s.models = list(self.models)
        s.script, s.spos, s.ret, s.world = self.script, self.spos, self.ret, self.world
        return s

    def fresh(self, base):
        self.nsym += 1
        return p("%s%d" % (base, self.nsym))

    def freshbool(self):
        self.nsym += 1
        return ("sym", "b%d" % self.nsym)

    def choose(self, n):
        """nondeterministic choice; the step is redone once per alternative"""
        if self.spos < len(self.script):
            self.spos += 1
            return self.script[self.spos - 1]
        raise Choice(n)

    def multiples(self, sz):
        return ()

    def ladd(self, led, a, b, w=("x",)):
        """adds [a,b) to a sorted list of intervals"""
        segs = list(led)
        i = 0
        while i < len(segs) and self.decide(("ge", self.n(a - segs[i].e))) is True:
            i += 1
        segs.insert(i, Seg(self.n(a), self.n(b), w))
        return self.merge(segs)

    # ---- counterexample valuations of the path's facts
    def witness(self, cond, mod=None, limit=40000):
        """values of the symbols that satisfy the facts and cond, or None"""
        facts = list(self.facts)
        nes = [self.n(x) for x in self.nes]
        goals = []
        flat(self, cond, goals)
        syms = set()
        for f in facts + nes:
            syms |= f.syms()
        for g in goals:
            syms |= csyms(self, g)
        if mod:
            mod = (self.n(mod[0]), self.n(mod[1]))
            syms |= mod[0].syms() | mod[1].syms()
        cons = [(f.syms(), ("ge", f)) for f in facts] + [(f.syms(), ("not", ("eq", f))) for f in nes]
        cons += [(csyms(self, g), g) for g in goals]
        if mod:
            cons.append((mod[0].syms() | mod[1].syms(), ("mod",) + mod))
        # only the symbols connected with the goal matter for the goal, but all facts must hold
        order = []
        left = set(syms)
        pend = [set(c[0]) for c in cons]
        while left:
            best = min(left, key=lambda y: (min([len(q - set(order)) for q in pend if y in q and q - set(order)] or [99]), 0 if y[:2] in ("S:", "A:") else 1, y))
            order.append(best)
            left.discard(best)
        pos = {y: i for i, y in enumerate(order)}
        by = [[] for _ in order]
        for sy, c in cons:
            if sy:
                by[max(pos[y] for y in sy)].append(c)
            elif not ceval(self, c, {}):
                return None
        val = {}
        cnt = [0]

        def go(i):
            if i == len(order):
                return True
            y = order[i]
            lo, hi = 0, 2 ** 64
            for c in by[i]:
                if c[0] == "ge":
                    k = b = 0
                    for mo, co in c[1].t.items():
                        for z in mo:
                            if z != y:
                                co *= val[z]
                        e = mo.count(y)
                        if e == 0:
                            b += co
                        elif e == 1:
                            k += co
                        else:
                            break
                    else:
                        if k > 0:
                            lo = max(lo, -(b // k))
                        elif k < 0:
                            hi = min(hi, b // -k)
                        elif b < 0:
                            return False
            if lo > hi:
                return False
            vs = [v for v in cands(y) if lo <= v <= hi]
            if not vs and 0 < lo <= hi < 2 ** 64:
                # beyond the usual sizes and alignments
                w = 1 << (lo - 1).bit_length()
                vs = [lo] if y[:2] == "S:" else [w] if y[:2] == "A:" and w <= min(hi, 2 ** 29) else []
            if y[:2] not in ("S:", "A:"):
                vs += [v for v in dict.fromkeys((lo, lo + 1, hi, hi - 1, lo + 2)) if lo <= v <= hi and v not in vs]
            for v in vs:
                cnt[0] += 1
                if cnt[0] > limit:
                    return False
                val[y] = v
                if all(ceval(self, c, val) for c in by[i]) and go(i + 1):
                    return True
            val.pop(y, None)
            return False
        if go(0):
            return {y: val[y] for y in order}
        return None

    def sized(self):
        """writes out that sizes and alignments are positive, which proofs use as a last resort; False if that was done before"""
        ys = {y for f in self.facts for y in f.syms() if y[:2] in ("S:", "A:") and y[2:] not in self.zst}
        new = [p(y) - 1 for y in sorted(ys) if p(y) - 1 not in self.facts]
        self.facts = self.facts + new
        return bool(new)

    # ---- integers
    def n(self, x):
        return x.subst(self.sub)

    def prove(self, x, depth=4):
        return self.pv(x.subst(self.sub), depth)

    def pv(self, x, depth=4):
        """proves x >= 0; valuations that satisfy the facts refute it quickly"""
        if all(c >= 0 for c in x.t.values()):
            return True
        x = self.reduce(x)
        if x.const() is not None:
            if x.const() >= 0:
                return True
            # the facts may still be contradictory, which nothing needs to know
            return False
        key = (x, frozenset(self.facts), depth)
        r = PCACHE.get(key)
        if r is not None:
            return r
        ms = []
        hit = False
        for m in self.models:
            m = self.extend(m, x)
            if m is None:
                continue
            ms.append(m)
            if peval(x, m) < 0:
                hit = True
                break
        if hit:
            self.models = [m] + [y for y in self.models if y is not m][:5]
            return False
        self.models = ms
        ix = Index(self.facts)
        r = prove(x, ix, 2)
        if not r:
            w = self.witness(("ge", -x - 1), limit=1500)
            if w is not None:
                self.models = [w] + self.models[:5]
            else:
                r = prove(x, ix, 3) or prove(x, ix, depth)
        if len(PCACHE) > 400000:
            PCACHE.clear()
        PCACHE[key] = r
        return r

    def extend(self, m, x):
        """the valuation with values for the symbols of x, or None"""
        miss = [y for mo in x.t for y in mo if y not in m]
        # facts that were added since
        for f in self.facts:
            for mo in f.t:
                for y in mo:
                    if y not in m and y not in miss:
                        miss.append(y)
        if miss:
            m = dict(m)
            for y in dict.fromkeys(miss):
                fs = [f for f in self.facts if any(y in mo for mo in f.t) and all(z in m or z == y for mo in f.t for z in mo)]
                for v in cands(y):
                    m[y] = v
                    if all(peval(f, m) >= 0 for f in fs):
                        break
                else:
                    return None
        for f in self.facts:
            if peval(f, m) < 0:
                return None
        return m

    def eq0(self, x):
        x = x.subst(self.sub)
        if not x.t:
            return True
        if x.const() is not None:
            return False
        return self.prove(x) and self.prove(-x)

    def eq(self, a, b):
        return self.eq0(a - b)

    def decide(self, c):
        """True, False or None"""
        k = c[0]
        if k == "c":
            return c[1]
        if k == "not":
            r = self.decide(c[1])
            return None if r is None else not r
        if k == "ge":
            x = self.n(c[1])
            if self.pv(x):
                return True
            if self.pv(-x - 1):
                return False
            return None
        if k == "eq":
            x = self.n(c[1])
            if not x.t:
                return True
            if x.const() is not None:
                return False
            if self.pv(x - 1) or self.pv(-x - 1):
                return False
            if self.pv(x) and self.pv(-x):
                return True
            for y in self.nes:
                y = self.n(y)
                if x == y or x == -y:
                    return False
            # p == 0 with p a product: a factor known non-zero
            return None
        if k == "tid":
            a, b = self.t(c[1]), self.t(c[2])
            if a == b:
                return True
            if frozenset((a, b)) in self.tne:
                return False
            if is_conc(a) and is_conc(b):
                return False
            return None
        if k == "sym":
            return self.bools.get(c[1])
        if k == "and":
            a, b = self.decide(c[1]), self.decide(c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "or":
            a, b = self.decide(c[1]), self.decide(c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        raise Undec("condition " + k)

    def must(self, c):
        r = self.decide(c)
        if r is None:
            raise Split(c)
        return r

    def assume(self, c, v=True):
        """adds c == v; returns False if that is impossible"""
        k = c[0]
        if k == "not":
            return self.assume(c[1], not v)
        d = self.decide(c)
        if d is not None:
            return d == v
        if k == "ge":
            x = c[1] if v else -c[1] - 1
            y = self.reduce(self.n(x))
            if len(y.t) == 1 and () not in y.t:
                return self.equate(y)       # symbols are not negative
            self.fact(x)
            return True
        if k == "eq":
            x = self.n(c[1])
            if v:
                return self.equate(x)
            if self.pv(x):
                self.fact(x - 1)
            elif self.pv(-x):
                self.fact(-x - 1)
            else:
                self.nes.append(x)
            return True
        if k == "tid":
            a, b = self.t(c[1]), self.t(c[2])
            if v:
                return self.unify(a, b)
            self.tne.add(frozenset((a, b)))
            return True
        if k == "sym":
            self.bools[c[1]] = v
            return True
        if k == "and":
            if v:
                return self.assume(c[1], True) and self.assume(c[2], True)
            a = self.decide(c[1])
            if a:
                return self.assume(c[2], False)
            b = self.decide(c[2])
            if b:
                return self.assume(c[1], False)
            raise Split(c[1])
        if k == "or":
            if not v:
                return self.assume(c[1], False) and self.assume(c[2], False)
            a = self.decide(c[1])
            if a is False:
                return self.assume(c[2], True)
            b = self.decide(c[2])
            if b is False:
                return self.assume(c[1], True)
            raise Split(c[1])
        raise Undec("condition " + k)

    def reduce(self, x):
        """x >= 0 without a factor that is known to be positive, or x"""
        c = x.t.get((), 0)
        if c not in (0, -1):
            return x
        ms = [m for m in x.t if m]
        if not ms:
            return x
        common = None
        for m in ms:
            common = set(m) if common is None else common & set(m)
            if not common:
                return x
        y = x - c
        hit = False
        for z in sorted(common):
            while z[:2] in ("S:", "A:") and z[2:] not in self.zst:
                q = div_exact(y, p(z))
                if q is None:
                    break
                y, hit = q, True
        if not hit:
            return x
        k = None
        for v in y.t.values():
            k = v if k is None else math.gcd(k, v)
        if k and abs(k) > 1:
            y = P({m: v // abs(k) for m, v in y.t.items()})
        return y + c

    def fact(self, x):
        x = self.n(x)
        y = self.reduce(x)
        if y is not x:
            x = y
            if x.const() is not None and x.const() < 0:
                self.facts.append(x)
        if all(c >= 0 for c in x.t.values()):
            return
        if x not in self.facts:
            self.facts.append(x)

    def equate(self, x):
        x = self.n(x)
        if not x.t:
            return True
        if x.const() is not None:
            return False
        # orient: a symbol occurring once, linearly, with coefficient +-1
        occ = {}
        for m in x.t:
            for y in set(m):
                occ[y] = occ.get(y, 0) + 1
        cand = [m[0] for m, c in x.t.items() if len(m) == 1 and abs(c) == 1 and occ[m[0]] == 1]
        # a single monomial equal to zero: some symbol is zero
        if cand:
            cand.sort(key=lambda y: (y.startswith("A:") or y.startswith("S:"), y.startswith("k"), y))
            for y in cand:
                c = x.t[(y,)]
                rhs = (p(y) * c - x) * c  # y == rhs
                if self.prove(-rhs - 1):
                    return False
                neg = any(v < 0 for v in rhs.t.values())
                if not self.addsub(y, rhs):
                    return False
                if neg:
                    self.fact(rhs)
                return True
        ms = list(x.t)
        if len(ms) == 1:
            nz = [y for y in set(ms[0]) if self.prove(p(y) - 1)]
            z = [y for y in set(ms[0]) if y not in nz]
            if not z:
                return False
            if len(z) == 1:
                return self.addsub(z[0], ZERO)
        # divide by a common factor known to be positive
        common = None
        for m in ms:
            common = set(m) if common is None else common & set(m)
        for y in sorted(common or ()):
            if self.prove(p(y) - 1):
                q = div_exact(x, p(y))
                if q is not None:
                    return self.equate(q)
        self.fact(x)
        self.fact(-x)
        # a product of positive numbers bounds each of them
        c = x.t.get((), 0)
        ms = [m for m in x.t if m]
        if len(ms) == 1 and len(ms[0]) > 1 and all(y[:2] in ("S:", "A:") for y in ms[0]):
            for y in set(ms[0]):
                self.fact(p(abs(c)) - p(y))
        return True

    def addsub(self, y, rhs):
        if y[:2] in ("S:", "A:") and rhs.const() is not None and rhs.const() <= 0 and not (y[0] == "S" and y[2:] in self.zst):
            return False
        one = {y: rhs}
        self.sub = {k: v.subst(one) for k, v in self.sub.items()}
        self.sub[y] = rhs
        fs = []
        for f in self.facts:
            g = f.subst(one)
            if g.const() is not None and g.const() < 0:
                return False
            if not all(c >= 0 for c in g.t.values()) and g not in fs:
                fs.append(g)
        self.facts = fs
        self.nes = [x.subst(one) for x in self.nes]
        return all(x.t for x in self.nes)

    # ---- type terms
    def t(self, a):
        while a in self.tsub:
            a = self.tsub[a]
        return a

    def unify(self, a, b):
        a, b = self.t(a), self.t(b)
        if a == b:
            return True
        if is_conc(a) and is_conc(b):
            return False
        if frozenset((a, b)) in self.tne:
            return False
        # keep concrete, then generic parameters, as representatives
        if rank(a) < rank(b) or (rank(a) == rank(b) and a > b):
            a, b = b, a
        # b := a
        self.tsub[b] = a
        self.tne = {frozenset(self.t(z) for z in x) for x in self.tne}
        if any(len(x) == 1 for x in self.tne):
            return False
        for pre in ("S:", "A:"):
            x = TSIZE(a, pre)
            y = self.n(TSIZE(b, pre))
            if not self.equate(y - x):
                return False
        return True

    def size(self, term):
        term = self.t(term)
        self.known_term(term)
        return self.n(TSIZE(term, "S:") * TSIZE(term, "A:"))

    def align(self, term):
        term = self.t(term)
        self.known_term(term)
        return self.n(TSIZE(term, "A:"))

    def units(self, term):
        term = self.t(term)
        self.known_term(term)
        return self.n(TSIZE(term, "S:"))

    def known_term(self, term):
        """sizes of element types are positive (zero sized ones are rejected, see C16)"""
        if term in CONC or term in self.terms:
            return
        self.terms = self.terms | {term}
        self.fact(p("A:" + term) - 1)
        if term in self.zst:
            self.equate(p("S:" + term))
        else:
            self.fact(p("S:" + term) - 1)
        self.fact(IMAX - p("S:" + term) * p("A:" + term))

    # ---- segments
    def le(self, a, b):
        return self.must(("ge", self.n(b - a)))

    def cut(self, segs, a, b):
        """(before, inside, after) of [a,b)"""
        pre, mid, post = [], [], []
        if self.eq(a, b):
            # nothing inside; the split position is still needed by callers that insert
            for s in segs:
                if self.le(s.e, a):
                    pre.append(s)
                elif self.le(a, s.s):
                    post.append(s)
                else:
                    pre.append(Seg(s.s, a, s.w))
                    post.append(Seg(a, s.e, s.w))
            return pre, mid, post
        for s in segs:
            if self.eq(s.s, s.e):
                continue
            if self.le(s.e, a):
                pre.append(s)
                continue
            if self.le(b, s.s):
                post.append(s)
                continue
            x, y = s.s, s.e
            # what is left over on either side may be empty: not decided here
            if self.decide(("ge", a - x)) is True or not self.le(a, x):
                if self.decide(("eq", a - x)) is not True:
                    pre.append(Seg(x, a, s.w))
                x = a
            if self.decide(("ge", y - b)) is True or not self.le(y, b):
                if self.decide(("eq", y - b)) is not True:
                    post.append(Seg(b, y, s.w))
                y = b
            mid.append(Seg(x, y, s.w))
        return pre, mid, post

    def merge(self, segs):
        out = []
        for s in segs:
            if self.eq(s.s, s.e):
                continue
            if out and self.same_w(out[-1].w, s.w) and self.eq(out[-1].e, s.s):
                out[-1] = Seg(out[-1].s, s.e, s.w)
            else:
                out.append(s)
        return tuple(out)

    def same_w(self, a, b):
        if a[0] != b[0] or len(a) != len(b):
            return False
        if a[0] in ("res", "gone"):
            return a[1] == b[1] and self.eq(a[2], b[2])
        return a == b

    def shift(self, segs, d):
        """moves segments by +d"""
        out = []
        for s in segs:
            w = s.w
            if w[0] in ("res", "gone"):
                w = (w[0], w[1], w[2] - d)
            out.append(Seg(s.s + d, s.e + d, w))
        return tuple(out)

    def covered(self, segs, a, b):
        """segments tile [a,b) exactly"""
        x = a
        for s in segs:
            if self.eq(s.s, s.e):
                continue
            if not self.eq(s.s, x):
                return False
            x = s.e
        return self.eq(x, b)


PCACHE = {}


def cands(y):
    if y.startswith("S:"):
        return (1, 2, 3)
    if y.startswith("A:"):
        return (8, 4, 2, 1, 16)
    return (1, 2, 0, 3, 5, 4, 6, 8, 7, 16, 24, 9, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 61, 2 ** 60)


CONC = {}          # term -> (size/align, align) of types with a known layout
GENERIC = set()    # generic parameter names


def is_conc(t):
    return not (t.startswith("τ") or t in GENERIC or t.startswith("?"))


def rank(t):
    return 2 if is_conc(t) else 1 if not t.startswith("τ") else 0


def TSIZE(term, pre):
    if term in CONC:
        return p(CONC[term][0 if pre == "S:" else 1])
    return p(pre + term)


def subst_val(v, f):
    """applies f to every P inside a value"""
    if isinstance(v, P):
        return f(v)
    if isinstance(v, tuple):
        if hasattr(v, "_fields"):
            return type(v)(*[subst_val(x, f) for x in v])
        return tuple(subst_val(x, f) for x in v)
    if isinstance(v, list):
        return [subst_val(x, f) for x in v]
    return v


def flat(st, c, out):
    if c[0] == "and":
        flat(st, c[1], out)
        flat(st, c[2], out)
    elif c[0] == "not" and c[1][0] == "or":
        flat(st, ("not", c[1][1]), out)
        flat(st, ("not", c[1][2]), out)
    elif c[0] == "not" and c[1][0] == "not":
        flat(st, c[1][1], out)
    else:
        out.append(c)


def csyms(st, c):
    if c[0] in ("ge", "eq"):
        return st.n(c[1]).syms()
    if c[0] == "not":
        return csyms(st, c[1])
    if c[0] in ("and", "or"):
        return csyms(st, c[1]) | csyms(st, c[2])
    return set()


def peval(x, val):
    r = 0
    for m, c in x.t.items():
        for y in m:
            c *= val[y]
        r += c
    return r


def ceval(st, c, val):
    k = c[0]
    if k == "c":
        return c[1]
    if k == "ge":
        return peval(st.n(c[1]), val) >= 0
    if k == "eq":
        return peval(st.n(c[1]), val) == 0
    if k == "not":
        if c[1][0] in ("tid", "sym"):
            return st.decide(c[1]) is not True
        return not ceval(st, c[1], val)
    if k == "and":
        return ceval(st, c[1], val) and ceval(st, c[2], val)
    if k == "or":
        return ceval(st, c[1], val) or ceval(st, c[2], val)
    if k == "mod":
        d = peval(c[2], val)
        return d > 0 and peval(c[1], val) % d != 0
    if k in ("tid", "sym"):
        return st.decide(c) is not False
    return True
