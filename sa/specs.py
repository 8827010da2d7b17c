"""What the public operations must return and leave behind: contents of results and arguments, compared with the
arguments at entry (provenance of every byte), at every exit of the analysed function."""
import math
from collections import namedtuple
from dom import *
from poly import P, p, ZERO, ONE, div_exact, prove
from eng import Loc, iscond, is_guess

View = namedtuple("View", "term n segs obj", defaults=(None,))      # n elements of type term; the bytes are those described by segs [0, n*S)

# kinds of obligations -> used by checks.KINDS
ACCESS, PAIR, POS, RANGE, CLONE, META, EQ, HASH, FMT, NUM, COST, LOST = "s-access", "s-pair", "s-pos", "s-range", "s-clone", "s-meta", "s-eq", "s-hash", "s-fmt", "s-num", "s-cost", "s-lost"


class Skip(Exception):
    """nothing to compare here"""


class Ctx:
    def __init__(self, eng, st, item, inst, argtys, args, mem0, rty, ret):
        self.eng, self.st, self.t = eng, st, eng.tys
        self.item, self.inst, self.argtys, self.args, self.mem0, self.rty, self.ret = item, inst, argtys, args, mem0, rty, ret
        self.cache = {}

    # ------------------------------------------------------------ obligations
    def need(self, cond, kind, msg):
        t = cond[1] if cond[0] == "not" else cond
        if t[0] in ("tid", "c"):
            self.eng.tick(kind)
            if self.st.decide(cond) is not True:
                if t[0] == "tid" and (is_guess(t[1]) or is_guess(t[2])):
                    raise Undec("unknown type")
                self.fail(kind, msg)
            return
        if cond[0] in ("and", "or"):
            # decided part by part
            st = self.st
            ok = all if cond[0] == "and" else any
            for x in cond[1:]:
                self.scaled(x)
            if ok(st.must(x) for x in cond[1:]):
                self.eng.tick(kind)
                return
        else:
            if cond[0] == "eq":
                # a common factor of both sides does not matter
                x = self.st.n(cond[1])
                g = math.gcd(*[abs(k) for k in x.t.values()]) if x.t else 1
                if g > 1:
                    cond = ("eq", P({m: k // g for m, k in x.t.items()}))
            self.scaled(cond)
        self.eng.need(self.st, cond, kind, msg, final=True)

    def scaled(self, c):
        """remembers c if it follows from sizes in bytes: x >= 0 iff (x + 1) * size > 0"""
        st = self.st
        if c[0] == "not" or st.decide(c) is not None:
            return
        terms = [t for t in sorted(st.terms) if st.decide(("ge", st.size(t) - 1))]
        for x in ([c[1]] if c[0] == "ge" else [c[1], -c[1]] if c[0] == "eq" else []):
            for y, neg in ((x, False), (-x - 1, True)):
                if st.decide(("ge", y)) is None and any(prove(st.n((y + 1) * st.size(t) - 1), st.facts, 3) for t in terms):
                    if not st.assume(("ge", y)):
                        raise Dead()

    def fail(self, kind, msg):
        self.eng.event(self.st, kind, msg)

    def tid(self, a, b):
        return ("tid", a, b)

    # ------------------------------------------------------------ views
    def a(self, i):
        """argument i at entry"""
        if i not in self.cache:
            now = self.st.mem
            self.st.mem = dict(self.mem0)
            try:
                self.cache[i] = self.view(self.args[i], self.argtys[i])
            finally:
                self.st.mem = now
        return self.cache[i]

    def now(self, i):
        return self.view(self.args[i], self.argtys[i])

    def int(self, i):
        v = self.args[i]
        if not isinstance(v, P):
            raise Undec("integer argument")
        return v

    def view(self, v, ty, depth=0):
        r = self.view1(v, ty, depth)
        if r is None:
            raise Undec("result has no known contents")
        return r

    def run(self, ptr, term, n):
        st = self.st
        n = st.n(n)
        sz = st.size(term)
        if st.eq(n, ZERO):
            return View(term, ZERO, ())
        if ptr.obj is None:
            if st.must(("eq", n)):
                return View(term, ZERO, ())
            raise Undec("elements without storage")
        _, segs, _ = self.eng.storage(st, Loc(ptr.obj, ptr.path, ptr.off, None))
        off = ptr.off or ZERO
        end = st.n(off + n * sz)
        pre, mid, post = st.cut(segs, off, end)
        return View(term, n, st.merge(st.shift(mid, -off)), ptr.obj)

    def store(self, v, ty, entry=False):
        """(allocation, capacity) of the vector inside a value"""
        now = self.st.mem
        if entry:
            self.st.mem = dict(self.mem0)
        try:
            r = self.store1(v, ty, 0)
        finally:
            self.st.mem = now
        if r is None:
            raise Undec("storage")
        return r

    def store1(self, v, ty, depth):
        if isinstance(v, VecV):
            return v.obj, v.cap
        while self.t.transparent(ty):
            ty = self.t.inner(ty)
        x = self.t.k(ty)
        if isinstance(v, Ptr) and x["k"] in ("ref", "ptr") and depth < 6:
            return self.store1(self.eng.load(self.st, self.eng.at(self.st, v, x["t"])), x["t"], depth + 1)
        if not isinstance(v, Agg) or x["k"] != "adt" or not x.get("local"):
            return None
        if x["path"] == "vec_void::VecVoid":
            return (v.fields[0].obj if isinstance(v.fields[0], Ptr) else None), v.fields[2]
        a = self.eng.s.adt(ty)["variants"][v.variant]["fields"]
        for y, f in zip(v.fields, a):
            r = self.store1(y, f["ty"], depth + 1) if depth < 6 else None
            if r:
                return r
        return None

    def moved(self, v, ty, i=0):
        """the storage of argument i goes on as the storage of v"""
        if self.a(i).n == ZERO or self.st.must(("eq", self.a(i).n)):
            return
        a, b = self.store(self.args[i], self.argtys[i], True), self.store(v, ty)
        self.eng.tick(COST)
        if a[0] != b[0]:
            self.fail(COST, "the elements are copied to other storage")

    def grown(self, i=0):
        """storage that had to grow has grown by a factor"""
        a, b = self.store(self.args[i], self.argtys[i], True), self.store(self.args[i], self.argtys[i])
        self.need(("or", ("eq", a[1] - b[1]), ("ge", b[1] * 2 - a[1] * 3)), COST, "the capacity changes from %s to %s" % (a[1], b[1]))
        if self.a(i) is not None:
            self.need(("or", ("eq", a[1] - b[1]), ("ge", self.a(i).n - a[1])), COST, "the capacity changes from %s to %s although there is room" % (a[1], b[1]))

    def count(self, nbytes, term):
        st = self.st
        q = div_exact(st.n(nbytes), st.size(term))
        if q is None:
            if st.must(("eq", nbytes)):
                return ZERO
            q = div_exact(st.n(nbytes), st.size(term))
        if q is None:
            raise Undec("length of a run")
        return q

    def view1(self, v, ty, depth):
        st, t, eng = self.st, self.t, self.eng
        if depth > 8:
            raise Undec("nesting")
        x = t.k(ty)
        k = x["k"]
        if isinstance(v, It):
            if v.kind == "slice" and t.generic(v.a[1]):
                q, e, _ = v.a
                term = t.register(e)
                return self.run(q._replace(off=st.n((q.off or ZERO) + v.pos[0] * st.size(term))), term, st.n(v.pos[1] - v.pos[0]))
            return None
        if k in ("param", "alias"):
            if isinstance(v, Tok):
                return View(v.term, ONE, (Seg(ZERO, st.size(v.term), ("res", v.rid, v.off)),))
            return None
        if k in ("ref", "ptr") or x.get("box"):
            e = x["args"][0] if x.get("box") else x["t"]
            if not isinstance(v, Ptr):
                return None
            y = t.k(e)
            if y["k"] == "slice":
                if t.generic(y["t"]) and v.meta is not None:
                    return self.run(v._replace(meta=None), t.register(y["t"]), v.meta)
                return None
            if v.obj is None:
                return None
            o = st.mem.get(v.obj)
            if o is None:
                return None
            if t.generic(e) and (isinstance(o, Buf) or v.off is not None):
                return self.run(v, t.register(e), ONE)
            return self.view1(eng.load(st, eng.at(st, v, e)), e, depth + 1)
        if k != "adt":
            return None
        p_ = x["path"]
        if p_ == "alloc::vec::Vec":
            if not isinstance(v, VecV) or not t.generic(v.ety):
                return None
            return self.run(Ptr(v.obj, (), ZERO, None, None), t.register(v.ety), v.len)
        if t.transparent(ty) and not t.is_bytes(ty):
            return self.view1(v, t.inner(ty), depth + 1)
        if not isinstance(v, Agg) or not x.get("local"):
            return None
        a = eng.s.adt(ty)
        d = {f["name"]: (v.fields[i], f["ty"]) for i, f in enumerate(a["variants"][v.variant]["fields"]) if i < len(v.fields)}
        if p_ == "vec_void::VecVoid":
            ptr, n, cap, e = v.fields
            return self.run(ptr, self.term(e, d["elem"][1]), n)
        if "elem" in d and "data" in d:
            term = self.term(*d["elem"])
            q = d["data"][0]
            if not isinstance(q, Ptr) or not isinstance(q.meta, P):
                return None
            return self.run(q._replace(meta=None), term, self.count(q.meta, term))
        if "type_id" in d and "bytes" in d:
            tid = d["type_id"][0]
            if not isinstance(tid, TId):
                return None
            return self.bytes(d["bytes"], st.t(tid.term))
        for n, (y, yt) in d.items():
            if n == "vtable":
                continue
            r = self.view1(y, yt, depth + 1)
            if r is not None:
                return r
        return None

    def bytes(self, f, term):
        st, eng, t = self.st, self.eng, self.t
        v, ty = f
        while t.path(ty) == "core::mem::manually_drop::ManuallyDrop":
            ty = t.inner(ty)
        if isinstance(v, Ptr):
            if v.obj is None:
                return None
            o = st.mem.get(v.obj)
            if isinstance(o, Cell) and v.off in (None, ZERO) and not v.path:
                n, segs = eng.bytes_of(st, o.val, o.ty)
                return View(term, ONE, st.merge(segs))
            return self.run(v._replace(meta=None), term, ONE)
        if isinstance(v, (Byt, Tok)):
            n, segs = eng.bytes_of(st, v, ty)
            pre, mid, post = st.cut(segs, ZERO, st.size(term))
            return View(term, ONE, st.merge(mid))
        return None

    def term(self, e, ty):
        if isinstance(e, TId):
            return self.st.t(e.term)
        if not isinstance(e, Agg):
            raise Undec("element description")
        for (n, _), y in zip(self.t.fields(ty), e.fields):
            if n == "type_id" and isinstance(y, TId):
                return self.st.t(y.term)
        raise Undec("element description")

    def T(self):
        """the type the caller names"""
        pr = self.item["preds"]
        for name, kind in reversed(self.item["generics"]):
            if kind != "ty" or name.startswith("impl "):
                continue
            b = [x[len(name) + 2:] for x in pr if x.startswith(name + ": ")]
            if any(x.startswith(("core::any::Any", "elem::", "core::marker::Copy", "num_traits", "core::clone::Clone")) or x.endswith("::Elem") for x in b) \
                    and not any(x.startswith(("traits::Has", "vtable::")) for x in b):
                for i, y in self.eng.s.types.items():
                    if y["k"] == "param" and y["s"] == name:
                        return self.t.register(i)
        # a type with no bound but 'static
        for name, kind in reversed(self.item["generics"]):
            if kind == "ty" and not name.startswith("impl ") and not [x for x in pr if x.startswith(name + ": ") and "Sized" not in x and "'static" not in x] \
                    and any(x == name + ": 'static" for x in pr):
                for i, y in self.eng.s.types.items():
                    if y["k"] == "param" and y["s"] == name:
                        return self.t.register(i)
        raise Undec("named type")

    # ------------------------------------------------------------ contents
    def resolve(self, segs, depth=0):
        """(start, end, origin, offset of start, cloned, repeated) of every run"""
        st = self.st
        out = []
        for s in segs:
            if s.w[0] != "res":
                out.append((s.s, s.e, None, s.w[0], False, False))
                continue
            rid, o = s.w[1], st.n(s.s + s.w[2])
            if rid[0] == "rep":
                out.append((s.s, s.e, rid[1], ZERO, False, True))
                continue
            if rid[0] not in ("cl", "cp"):
                out.append((s.s, s.e, rid, o, False, False))
                continue
            prov = st.led.get((rid, "prov"))
            if prov is None or depth > 4:
                raise Undec("origin of a clone")
            cl = rid[0] == "cl"
            if len(prov) == 1 and prov[0].w[0] == "rep":
                w = prov[0].w
                for r in self.resolve((Seg(ZERO, st.size(st.res[rid].term), ("res", w[1], w[2])),), depth + 1):
                    out.append((s.s, s.e, r[2], r[3], cl or r[4], True))
                continue
            end = st.n(o + s.e - s.s)
            pre, mid, post = st.cut(prov, o, end)
            if not st.covered(mid, o, end):
                raise Undec("origin of a clone")
            for m in mid:
                at = st.n(s.s + m.s - o)
                if m.w[0] == "rep":
                    out.append((at, st.n(at + m.e - m.s), m.w[1], m.w[2], True, True))
                else:
                    for r in self.resolve((Seg(m.s, m.e, ("res", m.w[1], m.w[2])),), depth + 1):
                        out.append((st.n(r[0] - m.s + at), st.n(r[1] - m.s + at), r[2], r[3], True, r[5]))
        return out

    def expect(self, v, pieces, what, kind=POS, mode="same"):
        """v consists of the given pieces: ("run", view, first, count) or ("one", view, count).
        mode: same (the values themselves), clone, any (either)"""
        st = self.st
        total = ZERO
        for q in pieces:
            total = st.n(total + q[-1])
        self.need(("eq", v.n - total), kind, "%s: %s elements instead of %s" % (what, v.n, total))
        sz = st.size(v.term)
        x = ZERO
        for q in pieces:
            src = q[1]
            y = st.n(x + q[-1] * sz)
            if st.eq(x, y) or st.must(("eq", q[-1])):
                continue
            if st.decide(self.tid(src.term, v.term)) is not True:
                self.fail(PAIR, "%s: elements of type %s appear as %s" % (what, st.t(src.term), st.t(v.term)))
            base = self.resolve(src.segs)
            if len(base) != 1 or base[0][2] is None:
                if not base and prove(p(-1), st.facts, 5):
                    raise Dead()
                raise Undec("source in several pieces")
            rid, off = base[0][2], base[0][3]
            if q[0] == "run":
                off = st.n(off + q[2] * sz)
            pre, mid, post = st.cut(v.segs, x, y)
            if not st.covered(mid, x, y):
                raise Undec("contents in unknown storage")
            for a, b, r, o, cloned, rep in self.resolve(mid):
                if r is None:
                    if o == "raw":
                        self.need(("ge", a - b), kind, "%s: bytes without a value" % what)
                        continue
                    raise Undec("contents of unknown origin")
                if r != rid:
                    self.need(("ge", a - b), kind, "%s: an element comes from %s instead of %s" % (what, self.nm(r), self.nm(rid)))
                    continue
                if q[0] == "run":
                    if rep:
                        # one element repeated: fine only for a single element at its own place
                        self.need(("and", ("eq", b - a - sz), ("eq", o - (off + a - x))), kind, "%s: one element is repeated" % what)
                    else:
                        self.need(("eq", o - (off + a - x)), kind, "%s: the element at byte %s is the one from byte %s, not %s" % (what, st.n(a), st.n(o), st.n(off + a - x)))
                else:
                    self.need(("eq", o - off), kind, "%s: another element is repeated" % what)
                    if not rep:
                        self.need(("eq", b - a - sz), kind, "%s: other elements follow the repeated one" % what)
                if not st.res[rid].copy and mode != "any":
                    if mode == "clone" and not cloned:
                        self.fail(CLONE, "%s: elements are not clones of the originals" % what)
                    if mode == "same" and cloned:
                        self.fail(kind, "%s: elements are clones, not the originals" % what)
            x = y

    def nm(self, r):
        x = self.st.res.get(r)
        return x.what if x else str(r)

    def whole(self, v):
        return [("run", v, ZERO, v.n)]

    def unchanged(self, i, kind=POS, what=None):
        self.expect(self.now(i), self.whole(self.a(i)), what or "argument %d must stay as it was" % (i + 1), kind)

    # ------------------------------------------------------------ results
    def opt(self):
        """(payload, type) of Some, or None"""
        v = self.ret
        if not isinstance(v, Agg):
            raise Undec("option")
        a = self.eng.s.adt(self.rty)
        if v.variant == 0:
            return None
        return v.fields[0], a["variants"][1]["fields"][0]["ty"]

    def result(self):
        v = self.ret
        if not isinstance(v, Agg):
            raise Undec("result")
        a = self.eng.s.adt(self.rty)
        return v.variant == 0, (v.fields[0] if v.fields else None), a["variants"][v.variant]["fields"][0]["ty"]

    def typed(self, kind=ACCESS):
        """the result is None exactly for another type than the stored one"""
        a, T = self.a(0), self.T()
        r = self.opt()
        same = self.tid(a.term, T)
        if r is None:
            self.need(("not", same), kind, "refused although the type is the stored one")
        else:
            self.need(same, kind, "accepted although the type is not the stored one")
        return r

    def paired(self, i, kind=PAIR):
        a, b = self.a(0), self.a(i)
        r = self.opt()
        same = self.tid(a.term, b.term)
        if r is None:
            self.need(("not", same), kind, "refused although both element types are the same")
        else:
            self.need(same, kind, "accepted although the element types differ")
        return r

    def boolean(self, cond, kind, what):
        st = self.st
        if isinstance(self.ret, (Opq,)):
            raise Undec("boolean result")
        if st.must(self.ret):
            self.need(cond, kind, what + " is true")
        else:
            self.need(("not", cond), kind, what + " is false")

    def num(self, want, kind, what):
        if not isinstance(self.ret, P):
            raise Undec("number")
        self.need(("eq", self.ret - want), kind, "%s is %s instead of %s" % (what, self.st.n(self.ret), self.st.n(want)))

    def range(self, i, n):
        """(start, end, condition for being inside) of a range argument; None if it has no end as a number"""
        v = self.args[i]
        path = self.t.path(self.argtys[i]).rsplit("::", 1)[-1]
        f = [x for x in v.fields] if isinstance(v, Agg) else []
        one = ONE
        if path == "RangeFull":
            return ZERO, n
        if path == "Range":
            return f[0], f[1]
        if path == "RangeTo":
            return ZERO, f[0]
        if path == "RangeFrom":
            return f[0], n
        if path == "RangeInclusive":
            return f[0], self.st.n(f[1] + one)
        if path == "RangeToInclusive":
            return ZERO, self.st.n(f[0] + one)
        raise Undec("range " + path)


# ---------------------------------------------------------------- the table
SPEC, PANICS, ITER = {}, {}, {}


def spec(*names, table=None):
    def deco(f):
        for n in names:
            (SPEC if table is None else table)[n] = f
        return f
    return deco


VEC = ("VecCopy", "VecDyn")
SL = ("Slice", "SliceMut", "SliceCopy", "SliceCopyMut")
VALS = ("Value", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut")


def names(adts, *fns):
    return ["%s::%s" % (a, f) for a in adts for f in fns]


def ret_is(c, what="the result", kind=POS, mode="same", of=0):
    c.expect(c.view(c.ret, c.rty), c.whole(c.a(of)), what, kind, mode)


# ---- conversions keep the storage
SAME_STORE = set(names(VEC, "into_vec", "from_vec", "from", "upcast", "upcast_with", "into_raw_parts")) | {"Option::from"}


def same_store(c):
    if not isinstance(c.argtys[0], int) or c.t.kind(c.argtys[0]) == "ref":
        return
    v, ty = c.ret, c.rty
    if c.t.path(ty) == "core::option::Option":
        r = c.opt()
        if r is None:
            return
        v, ty = r
    if c.t.kind(ty) == "tuple":
        v, ty = v.fields[0], c.t.k(ty)["ts"][0]
    c.moved(v, ty)


# ---- descriptions
@spec(*names(VEC + SL, "len"))
def s_len(c):
    c.num(c.a(0).n, POS, "the length")


@spec(*names(VEC + SL, "is_empty"))
def s_empty(c):
    c.boolean(("eq", c.a(0).n), POS, "is_empty")


@spec(*names(VEC + SL, "element_size"), *names(VALS, "size"))
def s_size(c):
    c.num(c.st.size(c.a(0).term), META, "the size")


@spec(*names(VALS, "value_alignment"))
def s_align(c):
    c.num(c.st.align(c.a(0).term), META, "the alignment")


@spec(*names(VEC + SL, "element_type_id"), *names(VALS, "value_type_id"))
def s_tid(c):
    if not isinstance(c.ret, TId):
        raise Undec("type id")
    if c.st.decide(c.tid(c.ret.term, c.a(0).term)) is not True:
        c.fail(META, "the reported type is %s instead of %s" % (c.st.t(c.ret.term), c.st.t(c.a(0).term)))


@spec(*names(VALS, "is"))
def s_is(c):
    c.boolean(c.tid(c.a(0).term, c.T()), ACCESS, "is::<T>()")


@spec(*names(VEC, "capacity"))
def s_cap(c):
    if isinstance(c.ret, P):
        c.need(("ge", c.ret - c.a(0).n), META, "the capacity is below the length")


# ---- the same elements in another form
@spec(*names(VALS + SL, "as_ref", "as_mut", "reborrow", "reborrow_mut", "upcast", "upcast_ref", "upcast_mut", "from", "new", "from_slice"),
      *names(VEC, "upcast", "upcast_with", "from_vec"), "VecDyn::as_slice", "VecDyn::as_mut_slice", "VecCopy::as_slice", "VecCopy::as_mut_slice",
      "ValueRef::clone", "CopyValueRef::clone", "Slice::clone", "SliceCopy::clone")
def s_same(c):
    ret_is(c)


@spec("VecCopy::from_slice", "VecDyn::from_slice", "VecCopy::clone", "VecDyn::clone", "Value::clone", "ValueRef::clone_value", "ValueMut::clone_value",
      "ValueRef::clone_small_value", "ValueMut::clone_small_value")
def s_clone(c):
    ret_is(c, "the clone", CLONE, "clone")
    for i in range(len(c.args)):
        c.unchanged(i, CLONE, "the original")


@spec("VecCopy::from", "VecDyn::from")
def s_from(c):
    x = c.t.k(c.argtys[0])
    ret_is(c, mode="clone" if x["k"] == "ref" else "same")


@spec("Value::try_new")
def s_try_new(c):
    r = c.opt()
    if r is not None:
        c.expect(c.view(*r), c.whole(c.a(0)), "the value")


@spec("VecCopy::into_raw_parts", "VecDyn::into_raw_parts")
def s_raw(c):
    ts = c.t.k(c.rty)["ts"]
    c.expect(c.view(c.ret.fields[0], ts[0]), c.whole(c.a(0)), "the storage")


@spec(*names(SL, "into_raw_parts"))
def s_raw_slice(c):
    q, e, _ = c.ret.fields
    ts = c.t.k(c.rty)["ts"]
    term = c.term(e, ts[1])
    if not isinstance(q, Ptr) or not isinstance(q.meta, P):
        raise Undec("bytes")
    c.expect(c.run(q._replace(meta=None), term, c.count(q.meta, term)), c.whole(c.a(0)), "the bytes")


@spec(*names(("Meta",), "from"))
def s_meta(c):
    e = dict(zip([n for n, _ in c.t.fields(c.rty)], c.ret.fields))["elem"] if isinstance(c.ret, Agg) else None
    if e is None:
        raise Undec("meta")
    ety = dict(c.t.fields(c.rty))["elem"]
    if c.st.decide(c.tid(c.term(e, ety), c.a(0).term)) is not True:
        c.fail(META, "describes type %s instead of %s" % (c.term(e, ety), c.st.t(c.a(0).term)))


# ---- typed access
@spec(*names(VEC, "check", "check_ref", "check_mut", "into_vec", "as_slice_as", "as_mut_slice_as", "iter_as", "iter_mut_as"),
      *names(SL, "check", "as_slice", "iter_as"), *names(VALS, "downcast"), "Option::from")
def s_typed(c):
    r = c.typed()
    if r is not None:
        c.expect(c.view(*r), c.whole(c.a(0)), "the result", ACCESS)


@spec(*names(VEC + SL, "get_as", "get_ref_as", "get_mut_as"))
def s_get_as(c):
    a, i = c.a(0), c.int(1)
    T = c.T()
    r = c.opt()
    ok = ("ge", a.n - i - 1)
    if r is None:
        if c.st.must(ok):
            c.need(("not", c.tid(a.term, T)), ACCESS, "refused although the type is the stored one")
        return
    c.need(ok, RANGE, "an element outside is returned")
    c.need(c.tid(a.term, T), ACCESS, "accepted although the type is not the stored one")
    c.expect(c.view(*r), [("run", a, i, ONE)], "the element")


@spec(*names(VEC + SL, "append_copy_to_vec", "append_clone_to_vec", "append_cloned_to_vec"))
def s_append_to(c):
    r = c.typed()
    b = c.a(1)
    if r is None:
        c.unchanged(1, ACCESS, "the vector after a refusal")
    else:
        c.expect(c.now(1), c.whole(b) + c.whole(c.a(0)), "the vector", POS, "any")
        pieces = c.whole(c.a(0))
        v = c.now(1)
        sz = c.st.size(v.term)
        pre, mid, post = c.st.cut(v.segs, c.st.n(b.n * sz), c.st.n(v.n * sz))
        c.expect(View(v.term, c.st.n(v.n - b.n), c.st.shift(mid, -(b.n * sz))), pieces, "the appended elements", CLONE, "clone")
    if c.t.kind(c.argtys[0]) == "ref":
        c.unchanged(0, CLONE, "the original")


@spec(*names(VEC + SL, "copy_into_vec", "clone_into_vec"))
def s_into_vec(c):
    r = c.typed()
    if r is not None:
        c.expect(c.view(*r), c.whole(c.a(0)), "the vector", CLONE, "clone")
    if c.t.kind(c.argtys[0]) == "ref":
        c.unchanged(0, CLONE, "the original")


# ---- collections given by the caller
def items(c):
    """the elements the caller's collection gave"""
    l = [v for k, v in c.st.led.items() if k[0] == "items"]
    if not l:
        c.fail(POS, "the items are never asked for")
    if len(l) > 1 or not isinstance(l[0], tuple):
        raise Undec("items")
    x, i, term, n, ty, f, odd = l[0]
    if odd[1]:
        c.fail(PAIR, "items of two types were given, which was not refused")
    return c.run(x.fields[i], term, n)


@spec("VecCopy::extend")
def s_extend(c):
    a, b = c.a(0), items(c)
    if c.st.must(("eq", b.n)):
        return c.unchanged(0, POS, "the container when there are no items")
    c.need(c.tid(a.term, b.term), PAIR, "accepted although the element types differ")
    c.expect(c.now(0), c.whole(a) + c.whole(b), "the container")


@spec("VecCopy::from_iter")
def s_from_iter(c):
    b = items(c)
    v = c.view(c.ret, c.rty)
    if c.st.must(("eq", b.n)):
        return
    c.need(c.tid(v.term, b.term), META, "describes another type than the items'")
    c.expect(v, c.whole(b), "the container")


# ---- constructors
@spec(*names(VEC, "with_type", "with_capacity"))
def s_with(c):
    v = c.view(c.ret, c.rty)
    c.need(("eq", v.n), POS, "a new container has elements")
    c.need(c.tid(v.term, c.T()), META, "the container has another element type than the named one")


@spec(*names(VEC, "with_size"))
def s_with_size(c):
    v = c.view(c.ret, c.rty)
    c.need(c.tid(v.term, c.T()), META, "the container has another element type than the named one")
    c.expect(v, [("one", c.a(1), c.int(0))], "the container", POS, "any")


@spec(*names(VEC, "with_type_from"))
def s_with_type_from(c):
    v = c.view(c.ret, c.rty)
    c.need(("eq", v.n), POS, "a new container has elements")
    t, a, ty = c.t, c.args[0], c.argtys[0]
    term = None
    if t.path(ty) == "meta::Meta":
        d = dict(zip([n for n, _ in t.fields(ty)], zip(a.fields, [y for _, y in t.fields(ty)])))
        term = c.term(*d["elem"])
    if term is not None:
        c.need(c.tid(v.term, term), META, "the container has another element type than the description")


# ---- contents
@spec(*names(VEC, "push_as"))
def s_push_as(c):
    c.grown()
    r = c.typed()
    if r is None:
        c.unchanged(0, ACCESS, "the container after a refusal")
    else:
        c.expect(c.now(0), c.whole(c.a(0)) + c.whole(c.a(1)), "the container")


@spec(*names(VEC, "push"))
def s_push(c):
    c.grown()
    r = c.paired(1)
    if r is None:
        c.unchanged(0, PAIR, "the container after a refusal")
    else:
        c.expect(c.now(0), c.whole(c.a(0)) + c.whole(c.a(1)), "the container")


@spec("VecDyn::push_cloned")
def s_push_cloned(c):
    c.grown()
    r = c.paired(1)
    if r is None:
        c.unchanged(0, PAIR, "the container after a refusal")
    else:
        c.expect(c.now(0), c.whole(c.a(0)) + c.whole(c.a(1)), "the container", POS, "any")
    c.unchanged(1, CLONE, "the original")


@spec(*names(VEC, "append"))
def s_append(c):
    r = c.paired(1)
    if r is None:
        c.unchanged(0, PAIR, "the first container after a refusal")
        c.unchanged(1, PAIR, "the second container after a refusal")
    else:
        c.expect(c.now(0), c.whole(c.a(0)) + c.whole(c.a(1)), "the container")
        c.need(("eq", c.now(1).n), POS, "the second container keeps elements")


@spec(*names(VEC, "clear"))
def s_clear(c):
    c.need(("eq", c.now(0).n), POS, "elements remain after clear")


@spec(*names(VEC, "reserve"))
def s_reserve(c):
    c.unchanged(0)
    a, b = c.store(c.args[0], c.argtys[0], True), c.store(c.args[0], c.argtys[0])
    if isinstance(c.args[1], P):
        c.need(("ge", b[1] - c.now(0).n - c.args[1]), COST, "less than the requested room is reserved")
        c.need(("or", ("eq", a[1] - b[1]), ("ge", c.now(0).n + c.args[1] - a[1] - 1)), COST, "the capacity changes from %s to %s although there is room" % (a[1], b[1]))


@spec(*names(VEC + SL, "rotate_left"))
def s_rotl(c):
    a, k = c.a(0), c.int(1)
    c.need(("ge", a.n - k), RANGE, "a rotation by more than the length is accepted")
    c.expect(c.now(0), [("run", a, k, c.st.n(a.n - k)), ("run", a, ZERO, k)], "the elements")


@spec(*names(VEC + SL, "rotate_right"))
def s_rotr(c):
    a, k = c.a(0), c.int(1)
    c.need(("ge", a.n - k), RANGE, "a rotation by more than the length is accepted")
    c.expect(c.now(0), [("run", a, c.st.n(a.n - k), k), ("run", a, ZERO, c.st.n(a.n - k))], "the elements")


@spec(*names(VEC, "resize"))
def s_resize(c):
    r = c.typed()
    a, n = c.a(0), c.int(1)
    if r is None:
        c.unchanged(0, ACCESS, "the container after a refusal")
    elif c.st.must(("ge", a.n - n)):
        c.expect(c.now(0), [("run", a, ZERO, n)], "the container")
    else:
        c.expect(c.now(0), c.whole(a) + [("one", c.a(2), c.st.n(n - a.n))], "the container", POS, "any")


@spec(*names(VEC, "fill"))
def s_fill(c):
    r = c.typed()
    if r is None:
        c.unchanged(0, ACCESS, "the container after a refusal")
    else:
        c.expect(c.now(0), [("one", c.a(1), c.a(0).n)], "the container", POS, "any")


@spec(*names(VEC + SL, "copy_from_slice", "clone_from_slice"))
def s_from_slice(c):
    r = c.typed()
    if r is None:
        c.unchanged(0, ACCESS, "the elements after a refusal")
    else:
        c.need(("eq", c.a(0).n - c.a(1).n), RANGE, "slices of different lengths are copied")
        c.expect(c.now(0), c.whole(c.a(1)), "the elements", CLONE, "clone")
    c.unchanged(1, CLONE, "the original")


@spec(*names(SL, "swap"))
def s_swap(c):
    a, i, j = c.a(0), c.int(1), c.int(2)
    st = c.st
    if st.must(("eq", i - j)):
        return c.unchanged(0)       # documented to do nothing
    c.need(("and", ("ge", a.n - i - 1), ("ge", a.n - j - 1)), RANGE, "elements outside are swapped")
    if not st.must(("ge", j - i)):
        i, j = j, i
    c.expect(c.now(0), [("run", a, ZERO, i), ("run", a, j, ONE), ("run", a, st.n(i + 1), st.n(j - i - 1)), ("run", a, i, ONE),
                        ("run", a, st.n(j + 1), st.n(a.n - j - 1))], "the elements")


# ---- parts
@spec(*names(VEC + SL, "get", "get_ref", "get_mut"))
def s_get(c):
    a, i = c.a(0), c.int(1)
    c.need(("ge", a.n - i - 1), RANGE, "an element outside is returned")
    c.expect(c.view(c.ret, c.rty), [("run", a, i, ONE)], "the element")


@spec(*names(SL, "subslice", "subslice_mut", "into_subslice"))
def s_sub(c):
    a = c.a(0)
    x, y = c.range(1, a.n)
    c.need(("and", ("ge", y - x), ("ge", a.n - y)), RANGE, "a range outside is returned")
    c.expect(c.view(c.ret, c.rty), [("run", a, x, c.st.n(y - x))], "the part")


@spec(*names(SL, "split_at"))
def s_split(c):
    a, m = c.a(0), c.int(1)
    c.need(("ge", a.n - m), RANGE, "a split outside is returned")
    ts = c.t.k(c.rty)["ts"]
    c.expect(c.view(c.ret.fields[0], ts[0]), [("run", a, ZERO, m)], "the first part")
    c.expect(c.view(c.ret.fields[1], ts[1]), [("run", a, m, c.st.n(a.n - m))], "the second part")


# ---- values
@spec("ValueMut::swap", "CopyValueMut::swap")
def s_vswap(c):
    a, b = c.a(0), c.a(1)
    if c.st.must(c.tid(a.term, b.term)):
        c.expect(c.now(0), c.whole(b), "the first value", PAIR)
        c.expect(c.now(1), c.whole(a), "the second value", PAIR)
    else:
        c.unchanged(0, PAIR)
        c.unchanged(1, PAIR)


@spec("ValueMut::assign")
def s_assign(c):
    a, b = c.a(0), c.a(1)
    if c.st.must(c.tid(a.term, b.term)):
        c.expect(c.now(0), c.whole(b), "the value", PAIR)
    else:
        c.unchanged(0, PAIR)


@spec("ValueMut::clone_from_other")
def s_clone_from_other(c):
    a, b = c.a(0), c.a(1)
    ok, err, ety = c.result()
    same = c.tid(a.term, b.term)
    if ok:
        c.need(same, PAIR, "accepted although the types differ")
        c.expect(c.now(0), c.whole(b), "the value", CLONE, "clone")
    else:
        c.need(("not", same), PAIR, "refused although both types are the same")
        c.unchanged(0, PAIR)
        # the error tells which two types did not match
        if isinstance(err, Agg):
            fs = c.eng.s.adt(ety)["variants"][err.variant]["fields"]
            want = {"expected": a.term, "actual": b.term}
            if set(want) == {f["name"] for f in fs}:
                for f, v in zip(fs, err.fields):
                    if isinstance(v, TId):
                        c.need(c.tid(v.term, want[f["name"]]), PAIR, "the error names the wrong type as " + f["name"])


@spec("CopyValueMut::copy")
def s_copy(c):
    r = c.paired(1)
    if r is not None:
        c.expect(c.view(*r), c.whole(c.a(1)), "the value", PAIR)


# ---- equality and hashing
@spec(*names(VEC + SL + VALS, "eq"))
def s_eq(c):
    st = c.st
    a, b = c.a(0), c.a(1)
    if isinstance(c.ret, Opq):
        raise Undec("boolean result")
    same = st.led.get(("eq", "same"), ())
    diff = st.led.get(("eq", "differ"), ())

    def origin(v):
        r = c.resolve(v.segs)
        if len(r) != 1 or r[0][2] is None:
            raise Undec("compared elements")
        return r[0][2], r[0][3]
    if not st.must(c.ret):
        if not st.must(c.tid(a.term, b.term)) or not st.must(("eq", a.n - b.n)):
            return
        if not diff:
            c.fail(EQ, "unequal although no elements differ")
        ra, oa = origin(a)
        rb, ob = origin(b)
        for d in diff:
            _, r1, o1, r2, o2 = d
            if (r1, r2) == (rb, ra):
                r1, o1, r2, o2 = r2, o2, r1, o1
            if (r1, r2) != (ra, rb):
                c.fail(EQ, "unequal because of other elements")
            c.need(("eq", (o1 - oa) - (o2 - ob)), EQ, "unequal because elements at different positions differ")
        return
    c.need(c.tid(a.term, b.term), EQ, "equal although the types differ")
    c.need(("eq", a.n - b.n), EQ, "equal although the lengths differ")
    if st.must(("eq", a.n)):
        return
    ra, oa = origin(a)
    rb, ob = origin(b)
    x = ZERO
    end = st.n(a.n * st.size(a.term))
    for s in same:
        _, r1, r2, d = s.w
        s0, e0 = s.s, s.e
        if (r1, r2) == (rb, ra):
            r1, r2, s0, e0, d = r2, r1, st.n(s.s + d), st.n(s.e + d), st.n(-d)
        if (r1, r2) != (ra, rb):
            continue
        c.need(("eq", d + oa - ob), EQ, "elements at different positions are compared")
        c.need(("eq", s0 - oa - x), EQ, "equal although an element was not compared")
        x = st.n(e0 - oa)
    c.need(("eq", x - end), EQ, "equal although an element was not compared")


def taken(c, a, led, kind, did, all_=True):
    """the elements of a were taken in one after the other"""
    st = c.st
    parts = st.led.get((led, "elems"), ())
    if st.must(("eq", a.n)):
        if parts:
            c.fail(kind, "something else than the elements is " + did)
        return
    r = c.resolve(a.segs)
    if len(r) != 1 or r[0][2] is None:
        raise Undec(did + " elements")
    rid, off = r[0][2], r[0][3]
    x = off
    end = st.n(off + a.n * st.size(a.term))
    for s in parts:
        if s.w[1] != rid:
            c.fail(kind, "something else than the elements is " + did)
        if s.w[0] == "back":
            c.fail(kind, "elements are %s from the last to the first" % did)
        c.need(("eq", s.s - x), kind, "elements are not %s one after the other" % did)
        x = s.e
    if all_:
        c.need(("eq", x - end), kind, "not every element is " + did)


@spec(*names(VEC + SL + VALS, "hash"))
def s_hash(c):
    a = c.a(0)
    taken(c, a, "hash", HASH, "hashed")
    ok = c.st.n(a.n).syms()
    for x in c.st.led.get(("hash", "other"), ()):
        if isinstance(x, Ptr):
            c.fail(HASH, "where the elements lie is hashed, so equal objects may hash differently")
        if isinstance(x, P) and not all(y in ok or y[:2] in ("S:", "A:") for y in c.st.n(x).syms()):
            c.fail(HASH, "%s is hashed, so equal objects may hash differently" % c.st.n(x))


# ---- formatting
@spec(*names(("VecDyn", "Slice", "SliceMut") + VALS, "fmt"))
def s_fmt(c):
    taken(c, c.a(0), "fmt", FMT, "formatted", c.result()[0])
    if c.st.led.get(("fmt", "anew")):
        c.fail(FMT, "elements are formatted with new options; those of the formatter (such as the # of {:#?}) do not reach them")


# ---- numbers
NUMERIC = ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64")


def numeric(c, term):
    """whether the elements are of one of the numeric types, and of none of the others on the contrary answer"""
    tids = [c.tid(term, c.t.register(c.t.mk(x))) for x in NUMERIC]
    if any(c.st.decide(x) is True for x in tids):
        return True, tids
    return False, tids


@spec("VecCopy::cast_into_vec", "VecDyn::cast_into_vec")
def s_cast(c):
    a = c.a(0)
    num, tids = numeric(c, a.term)
    v, ty = c.ret, c.rty
    if c.t.path(ty).endswith("Option"):
        r = c.opt()
        if r is None:
            for x, n in zip(tids, NUMERIC):
                c.need(("not", x), NUM, "elements of type %s are not converted" % n)
            taken_none(c)
            return
        if not num:
            c.fail(NUM, "elements that are not numbers are converted")
        v, ty = r
    if not isinstance(v, VecV):
        raise Undec("result")
    if num:
        c.need(("eq", v.len - a.n), NUM, "%s numbers for %s elements" % (v.len, a.n))
        taken(c, a, "conv", NUM, "converted")
    else:
        c.need(("eq", v.len), NUM, "elements that are not numbers are converted")
        taken_none(c)
        for x, n in zip(tids, NUMERIC):
            c.need(("or", ("not", x), ("eq", a.n)), NUM, "elements of type %s are not converted" % n)
    c.unchanged(0, NUM, "the original")


def taken_none(c):
    if c.st.led.get(("conv", "elems")):
        c.fail(NUM, "elements that are not numbers are converted")


@spec("VecCopy::fmt")
def s_display(c):
    a = c.a(0)
    num, tids = numeric(c, a.term)
    if num:
        return taken(c, a, "fmt", NUM, "displayed", c.result()[0])
    if c.st.led.get(("fmt", "elems")):
        c.fail(NUM, "elements that are not numbers are displayed")
    for x, n in zip(tids, NUMERIC):
        c.need(("not", x), NUM, "elements of type %s are not displayed" % n)


# ---- iterators: item j
@spec(*names(VEC + SL, "iter", "iter_mut", "into_iter"), table=ITER)
def i_iter(c):
    a = c.a(0)
    return a.n, lambda j: [("run", a, j, ONE)]


@spec(*names(SL, "chunks_exact", "chunks_exact_mut"), table=ITER)
def i_chunks(c):
    a, k = c.a(0), c.int(1)
    if len(c.st.world) > 3:
        n = None
    else:
        def n(m):
            what = "the iterator has %s items for %s elements in chunks of %s" % (m, a.n, k)
            c.need(("ge", a.n - k * m), POS, what)
            c.need(("ge", k * (m + 1) - 1 - a.n), POS, what)
    return n, lambda j: [("run", a, c.st.n(j * k), k)]


# ---- when a panic of the library itself is allowed
@spec(*names(VEC + SL, "get", "get_ref", "get_mut", "get_as", "get_ref_as", "get_mut_as"), table=PANICS)
def p_get(c):
    return ("ge", c.int(1) - c.a(0).n), "a position inside is refused"


@spec(*names(SL, "split_at"), *names(VEC + SL, "rotate_left", "rotate_right"), table=PANICS)
def p_mid(c):
    return ("ge", c.int(1) - c.a(0).n - 1), "a position inside is refused"


@spec(*names(SL, "swap"), table=PANICS)
def p_swap(c):
    n = c.a(0).n
    return ("or", ("ge", c.int(1) - n), ("ge", c.int(2) - n)), "positions inside are refused"


@spec(*names(SL, "subslice", "subslice_mut", "into_subslice"), table=PANICS)
def p_sub(c):
    a = c.a(0)
    x, y = c.range(1, a.n)
    return ("or", ("ge", x - y - 1), ("ge", y - a.n - 1)), "a range inside is refused"


@spec(*names(SL, "chunks_exact", "chunks_exact_mut"), table=PANICS)
def p_chunks(c):
    return ("or", ("eq", c.int(1)), ("ge", c.int(1) - c.a(0).n - 1)), "a chunk size is refused"


@spec(*names(VEC, "cast_into_vec"), table=PANICS)
def p_cast(c):
    # numbers may need more memory than there is
    return ("c", numeric(c, c.a(0).term)[0]), "the operation panics although nothing is to be converted"


NEVER = names(VEC + SL, "len", "is_empty", "iter", "iter_mut", "as_slice", "as_mut_slice", "as_slice_as", "as_mut_slice_as", "iter_as", "iter_mut_as",
              "check", "check_ref", "check_mut", "into_vec", "upcast", "reborrow", "reborrow_mut", "clear") + \
    names(VALS, "downcast", "swap", "as_ref", "as_mut", "is", "upcast", "reborrow", "reborrow_mut") + \
    ["VecDyn::eq", "Slice::eq", "SliceMut::eq", "Value::eq", "ValueRef::eq", "ValueMut::eq", "VecDyn::hash", "Value::hash"]


@spec(*NEVER, table=PANICS)
def p_never(c):
    return ("c", False), "the operation panics by itself"


# ---------------------------------------------------------------- driver
def name_of(f):
    """Type::method of a public function"""
    adt = f.get("impl_adt") or f["path"].split("::<")[0]
    ty = adt.rsplit("::", 1)[-1]
    n = f["name"]
    if f.get("impl_trait") and f["impl_trait"].rsplit("::", 1)[-1] == "Clone" and n == "clone_from":
        return None
    return "%s::%s" % (ty, n)


class Driver:
    def __init__(self, eng, item, inst, base):
        self.eng, self.item, self.inst, self.base = eng, item, inst, base
        self.name = name_of(item)
        self.done = 0

    def ctx(self, eng, st):
        w = st.world
        return Ctx(eng, st, self.item, self.inst, self.inst["in"], w[1], w[2], self.inst["out"], st.ret)

    def exit(self, eng, st):
        """called when the analysed function has returned; pushes a frame to go on with"""
        if len(st.world) > 3:
            return self.item_exit(eng, st)
        if eng.noting and not st.fuzzy:
            eng.sigs.add(self.signature(st))
        # every rule is applied, also where another one is broken
        bad = None
        f = SPEC.get(self.name)
        for go in (lambda: self.base(eng, st), lambda: f and f(self.ctx(eng, st)), lambda: self.name in SAME_STORE and same_store(self.ctx(eng, st))):
            try:
                go()
            except eng.Halt as x:
                bad = x
            except Undec:
                if bad is None:
                    raise
        if bad is not None:
            raise bad
        if f:
            eng.tick("spec")
        g = ITER.get(self.name)
        if g:
            eng.tick("spec")
            self.iterate(eng, st, g)

    def iterate(self, eng, st, g):
        c = self.ctx(eng, st)
        n, item = g(c)
        its = []
        find(st.ret, its)
        if len(its) != 1:
            if its:
                raise Undec("several iterators")
            # unknown kind of iterator: its first two items
            return self.call(eng, st, st.ret, self.inst["out"], ("seq", ZERO))
        it = its[0]
        f, b = it.pos
        m = st.n(b - f)
        if callable(n):
            n(m)
            n = m
        c.need(("eq", m - n), POS, "the iterator has %s items instead of %s" % (m, st.n(n)))
        if not st.must(("ge", n - 1)):
            return
        j = st.fresh("j")
        if not st.assume(("ge", n - j - 1)):
            raise Dead()
        ret = replace(st.ret, it, it._replace(pos=(st.n(f + j), b)))
        self.call(eng, st, ret, self.inst["out"], ("at", j))

    def call(self, e, st, ret, ty, phase):
        k = ("X", "it", len(st.mem))
        st.mem[k] = Cell("dying", ty, ret, True)
        self.next(e, st, k, phase)

    def next(self, e, st, k, phase):
        ty = st.mem[k].ty
        env = self.inst["env"]
        r = e.tys.memo(("itnext", ty, env), lambda: e.s.q(op="method", env=env, trait="core::iter::traits::iterator::Iterator", name="next", args=[ty]))
        if r.get("inst") is None:
            raise Undec("iterator")
        b = e.s.body(r["inst"])
        if not b:
            raise Undec("iterator")
        st.world = st.world[:3] + (phase, k, b["locals"][0])
        e.push(st, r["inst"], b, [Ptr(k, (), None, None, None)], None)

    def signature(self, st):
        """the outcome of a path, what was done to elements on it and which of their types agree"""
        v = st.ret
        r = v.variant if isinstance(v, Agg) else st.must(v) if iscond(v) else None
        ts = sorted(t for t in st.terms if not is_conc(t))
        same = tuple((a, b, st.decide(("tid", a, b))) for i, a in enumerate(ts) for b in ts[:i])
        return r, tuple(sorted((k[1], n[0]) for k, n in st.led.items() if k[0] == "note")), same

    def item_exit(self, e, st):
        (mode, j), k, oty = st.world[3:]
        import world
        c = self.ctx(e, st)
        n, item = ITER[self.name](c)
        v = st.ret
        if not isinstance(v, Agg):
            raise Undec("item")
        world.Check(e, st, False).walk(v, oty, True, "an item of the iterator")
        if v.variant == 0:
            if mode == "at":
                c.fail(POS, "the iterator ends early")
            if n is not None:
                c.need(("ge", j - n), POS, "the iterator ends early")
            return
        ity = e.s.adt(oty)["variants"][1]["fields"][0]["ty"]
        if n is not None:
            c.need(("ge", n - j - 1), RANGE, "the iterator goes on after the last element")
        c.expect(c.view(v.fields[0], ity), item(j), "item %s of the iterator" % j)
        if mode == "seq" and j == ZERO:
            self.next(e, st, k, ("seq", ONE))

    def unwind(self, eng, st, base):
        base(eng, st)
        f = PANICS.get(self.name)
        if f and not st.npanic:
            c = self.ctx(eng, st)
            for t in st.terms:
                # alignments beyond those every operation supports may be refused
                if all(st.decide(("eq", st.align(t) - p(2 ** k))) is False for k in range(14)):
                    return
            try:
                cond, what = f(c)
                c.need(cond, RANGE, what)
            except Undec:
                pass        # a path that may be impossible


def find(v, out):
    if isinstance(v, It):
        out.append(v)
    elif isinstance(v, Agg):
        for x in v.fields:
            find(x, out)


def replace(v, old, new):
    if v is old:
        return new
    if isinstance(v, Agg):
        return Agg(v.kind, v.variant, tuple(replace(x, old, new) for x in v.fields))
    return v
