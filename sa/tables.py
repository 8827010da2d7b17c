"""Function tables: what each accessor of each table returns, and what the functions in the tables do to an element."""
import re
import dom, eng, models, world
from dom import *
from poly import P, p, ZERO, ONE

OPS = {"drop_fn": "drop", "clone_fn": "clone", "clone_from_fn": "clone_from", "clone_into_raw_fn": "clone_into_raw",
       "hash_fn": "hash", "eq_fn": "eq", "fmt_fn": "fmt"}


class Eval:
    """results of functions without branches on unknown data"""

    def __init__(self, sess):
        self.s = sess
        self.e = eng.Eng(sess, models)

    def call(self, inst, args, mem=None):
        """(value, state) of the only returning path"""
        b = self.s.body(inst)
        if b is None:
            raise Undec("no body")
        st = St()
        st.mem.update(mem or {})
        self.e.push(st, inst, b, args, None)
        out = []
        self.e.on_exit = lambda e, s: out.append((s.ret, s))
        self.e.on_unwind = lambda e, s: None
        self.e.undecs = {}
        self.e.run(st, "table", seconds=20)
        if self.e.undecs:
            raise Undec("; ".join(sorted(self.e.undecs)))
        if self.e.events:
            raise Undec(str(list(self.e.events.values())[0]["msg"]))
        if len(out) != 1:
            raise Undec("%d results" % len(out))
        return out[0]


def cells(v, ty):
    o = ("T", 1)
    return Ptr(o, (), None, None, None), {o: Cell("ext", ty, v, True)}


class Adapter:
    """a function of a table, applied to the bytes of one element of type T"""

    def __init__(self, sess, inst, term, op, zero=False):
        self.s, self.inst, self.term, self.op, self.zero = sess, inst, term, op, zero
        self.e = eng.Eng(sess, models)
        self.bad = []
        self.exits = self.unw = 0

    def bytes(self, st, what, raw=False):
        w = self.e.world
        sz = st.size(self.term)
        if raw:
            b = Buf("ext", sz, st.align(self.term), (Seg(ZERO, sz, ("raw",)),), True, None)
            rid = None
        else:
            b = w.buf(st, "ext", self.term, ONE, ONE, False, what)
            rid = b.segs[0].w[1]
        o = w.ext(st, b)
        return Ptr(o, (), ZERO, sz, None), rid

    def run(self):
        e, op = self.e, self.op
        dom.GENERIC.add(self.term)
        b = self.s.body(self.inst)
        if b is None:
            raise Undec("no body")
        st = St()
        e.world = world.World(e, None)
        if self.zero:
            st.zst = frozenset([self.term])
            st.size(self.term)
        self.src, self.rid = self.bytes(st, "the element")
        if op == "drop":
            args = [self.src]
        elif op == "clone":
            args = [self.src]
        elif op == "clone_into_raw":
            self.dst, self.drid = self.bytes(st, "the destination", True)
            args = [self.src, self.dst]
        elif op == "clone_from":
            self.dst, self.drid = self.bytes(st, "the destination")
            args = [self.dst, self.src]
        elif op == "eq":
            self.dst, self.drid = self.bytes(st, "the other element")
            args = [self.src, self.dst]
        else:
            args = [self.src, Opq("sink")]
        e.push(st, self.inst, b, args, None)
        e.on_exit = self.exit
        e.on_unwind = self.unwind
        e.run(st, self.s.insts[self.inst]["path"], seconds=20)
        if e.undecs:
            raise Undec("; ".join(sorted(e.undecs)))
        for k, v in e.events.items():
            self.bad.append(v["msg"])
        if not self.exits and not self.bad:
            self.bad.append("never returns")
        return self.bad

    def fail(self, msg):
        if msg not in self.bad:
            self.bad.append(msg)

    def drops(self, st, rid):
        return [(st.n(s.s), st.n(s.e)) for s in st.led.get((rid, "drop"), ())]

    def gone(self, st, rid, what):
        d = self.drops(st, rid)
        if len(d) != 1 or not st.eq(d[0][0], ZERO) or not st.eq(d[0][1], st.size(self.term)):
            self.fail("%s is not dropped" % what)

    def kept(self, st, ptr, rid, what):
        if self.drops(st, rid):
            self.fail("%s is dropped" % what)
        segs = st.merge(st.mem[ptr.obj].segs)
        if len(segs) != 1 or segs[0].w[0] != "res" or segs[0].w[1] != rid or not st.eq(st.n(segs[0].s + segs[0].w[2]), ZERO):
            self.fail("%s is changed" % what)

    def clone_in(self, st, segs, what):
        segs = st.merge(segs)
        w = segs[0].w if len(segs) == 1 else ("?",)
        if w[0] == "res" and isinstance(w[1], tuple) and w[1][0] == "cl" and w[1][1] == self.rid:
            if self.drops(st, w[1]):
                self.fail("the clone in %s is dropped" % what)
        elif w[0] == "res" and w[1] == self.rid:
            self.fail("%s holds the element itself, not a clone" % what)
        else:
            self.fail("%s does not hold a clone of the element" % what)

    def others(self, st, keep):
        """clones that are neither kept nor dropped"""
        for r, x in st.res.items():
            if isinstance(r, tuple) and r[0] == "cl":
                n = st.n(x.total)
                d = ZERO
                for a, b in self.drops(st, r):
                    d = d + (b - a)
                if not st.eq(st.n(n - d), st.size(self.term) if keep else ZERO):
                    self.fail("a clone is leaked" if not keep else "not exactly one clone is made and kept")

    def exit(self, e, st):
        self.exits += 1
        op = self.op
        if op == "drop":
            return self.gone(st, self.rid, "the element")
        self.kept(st, self.src, self.rid, "the element")
        if op == "clone":
            v = st.ret
            if not isinstance(v, Ptr) or v.obj is None or not isinstance(v.meta, P):
                raise Undec("result of clone")
            o = st.mem[v.obj]
            if isinstance(o, Cell):
                if not isinstance(o.val, Tok) or st.decide(("tid", o.val.term, self.term)) is not True or not st.eq(v.meta, st.size(self.term)):
                    return self.fail("the box returned is not a box of the element's type")
                x = o.val
                self.clone_in(st, (Seg(ZERO, st.size(self.term), ("res", x.rid, x.off)),), "the result")
                return self.others(st, True)
            if o.kind != "heap" or not st.eq(v.meta, st.size(self.term)) or not st.eq(o.size, st.size(self.term)) or not st.eq(o.align, st.align(self.term)) or v.path or (v.off is not None and not st.eq(v.off, ZERO)):
                self.fail("the box returned is not a box of the size and alignment of the element")
            self.clone_in(st, o.segs, "the result")
            self.others(st, True)
        elif op == "clone_into_raw":
            self.clone_in(st, st.mem[self.dst.obj].segs, "the destination")
            self.others(st, True)
        elif op == "clone_from":
            self.clone_in(st, st.mem[self.dst.obj].segs, "the destination")
            self.gone(st, self.drid, "the old value of the destination")
            self.others(st, True)
        elif op == "eq":
            self.kept(st, self.dst, self.drid, "the other element")
            self.others(st, False)
            r = st.ret
            same = [s for s in st.led.get(("eq", "same"), ()) if set(s.w[1:3]) == {self.rid, self.drid} and st.eq(s.s, ZERO) and st.eq(s.e, st.size(self.term))]
            diff = [x for x in st.led.get(("eq", "differ"), ()) if {x[1], x[3]} == {self.rid, self.drid}]
            if st.must(r):
                if not same:
                    self.fail("answers 'equal' without comparing the two elements")
            else:
                if not diff:
                    self.fail("answers 'different' although the elements may be equal")
        else:
            self.others(st, False)
            k = ("hash", "elems") if op == "hash" else ("fmt", "elems")
            l = st.led.get(k, ())
            if len(l) != 1 or l[0].w[1] != self.rid or not st.eq(st.n(l[0].e - l[0].s), st.size(self.term)):
                self.fail("does not %s the element exactly once" % ("hash" if op == "hash" else "format"))
            if st.led.get(("fmt", "anew")):
                self.fail("formats the element with new options; those of the formatter (such as the # of {:#?}) do not reach it")

    def unwind(self, e, st):
        self.unw += 1
        if self.op in ("hash", "fmt", "eq", "clone", "clone_into_raw"):
            if self.drops(st, self.rid):
                self.fail("the element is dropped when it panics")
            self.others(st, False)
        elif self.op == "clone_from":
            if self.drops(st, self.rid):
                self.fail("the element is dropped when it panics")
            segs = st.merge(st.mem[self.dst.obj].segs)
            w = segs[0].w if len(segs) == 1 else ("?",)
            if w[0] != "res" or w[1] != self.drid and not (isinstance(w[1], tuple) and w[1][0] == "cl"):
                self.fail("the destination holds no element when it panics")
            elif self.drops(st, w[1]):
                self.fail("the element in the destination is already dropped when it panics")


def slot(sess, v):
    """what a function pointer points to: ("op", op, term) / ("inst", inst) / None"""
    if isinstance(v, FnTok):
        return ("op", v.kind, "T")
    if isinstance(v, (FnP, Fn)):
        t = sess.types[v.inst if isinstance(v, FnP) else v.ty]
        m = re.search(r"\{<(.+) as (?:dync::)?traits::(\w+)Bytes>::(\w+)_bytes\}$", t["s"])
        if m:
            return ("op", m.group(3), m.group(1))
        if t.get("inst") is not None:
            return ("inst", t["inst"])
    return None


FOR = {"C05": ("drop", "clone", "clone_from", "clone_into_raw"), "C06": ("clone", "clone_from", "clone_into_raw", "eq", "hash", "fmt"), "C10": ("eq", "hash"),
       "C17": ("clone", "clone_from", "clone_into_raw"), "C21": ("fmt",)}


def check(b, rep):
    """C08 (and the properties in FOR, for their operations): the accessors of every table return functions for the element type the table is built for, and those do what they are for"""
    s = b.session()
    items = s.items()["fns"]
    ops = FOR.get(rep.prop, tuple(OPS.values()))
    ev = Eval(s)
    acc = {}
    for f in items:
        t = (f["impl_trait"] or "").split("<")[0].split("::")[-1]
        if OPS.get(f["name"]) in ops and t.startswith("Has") and f["has_body"]:
            acc.setdefault(f["impl_self"], []).append(f)
    n = m = 0
    for f in items:
        if f["name"] != "build_vtable" or not f["has_body"]:
            continue
        key = "table built by " + f["path"]
        try:
            v, st = ev.call(s.q(op="inst", d=f["d"], sub=[])["inst"], [])
        except Undec as x:
            rep.undec(key, str(x))
            continue
        mine = [g for k, gs in acc.items() for g in gs if same(k, f["impl_self"])]
        for g in mine:
            k2 = "%s of the %s" % (g["path"].split("::")[-1], key)
            try:
                b2 = s.body(s.q(op="inst", d=g["d"], sub=[])["inst"])
                a, mem = cells(v, b2["locals"][1])
                r, st = ev.call(s.q(op="inst", d=g["d"], sub=[])["inst"], [a], mem)
                r = deref(st, r)
            except Undec as x:
                rep.undec(k2, str(x))
                continue
            n += 1
            got, op = slot(s, r), OPS[g["name"]]
            if got is None:
                rep.undec(k2, "the function returned is not known")
            elif got[0] == "op":
                want = element(f)
                if isinstance(r, (FnP, Fn)) and want and want != got[2]:
                    rep.violation(k2 + ": the function for this operation", "it belongs to %s, not to the element type %s" % (got[2], want), g["span"])
                elif got[1] != op:
                    rep.violation(k2 + ": the function for this operation", "it is the %s function" % got[1], g["span"])
                else:
                    rep.hold(k2 + ": the function for this operation", "the %s function of the element type" % op)
            else:
                adapt(s, rep, got[1], op, k2, g["span"])
    for f in items:
        if f["impl_trait"] and f["has_body"] and f["unsafe"] and re.search(r"traits::\w+Bytes$", f["impl_trait"].split("<")[0]) and f["name"].endswith("_bytes") and f["name"][:-6] in ops:
            m += 1
            adapt(s, rep, s.q(op="inst", d=f["d"], sub=[])["inst"], f["name"][:-6], f["path"], f["span"])
    s.close()
    rep.notes["table_slots"] = n
    rep.notes["table_functions"] = m


def element(f):
    """the element type of the table that a build_vtable function builds"""
    m = re.search(r"VTable<(.+)>>$", f.get("impl_trait_ref") or "")
    return m and m.group(1)


def deref(st, v):
    """the function pointer a reference into a table leads to"""
    while isinstance(v, Ptr) and v.obj in st.mem and isinstance(st.mem[v.obj], Cell):
        x = st.mem[v.obj].val
        for k in v.path:
            x = x.fields[k[1] if isinstance(k, tuple) else k]
        v = x
    return v


def same(a, b):
    """the same type up to the names of its type parameters"""
    return a == b or re.sub(r"\b[TUV]\b", "_", a or "?") == re.sub(r"\b[TUV]\b", "_", b or "??")


DOES = {"drop": "drops the element", "clone": "makes one clone in a box of the element's size and alignment", "clone_from": "replaces the element by a clone and drops the old one",
        "clone_into_raw": "writes one clone without touching what was there", "eq": "compares the two elements", "hash": "hashes the element", "fmt": "formats the element"}


def adapt(s, rep, inst, op, key, span):
    a = Adapter(s, inst, "T", op)
    try:
        bad = a.run()
    except Undec as x:
        return rep.undec(key, str(x))
    if bad:
        rep.violation("%s: %s" % (key, DOES[op]), "; ".join(bad), span)
    else:
        rep.hold("%s: %s" % (key, DOES[op]), "%d exits, %d unwindings" % (a.exits, a.unw))
