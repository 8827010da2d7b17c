"""Inputs of the analysed functions (any valid value of the argument types) and the conditions every result must meet."""
import re
import dom
from dom import *
from poly import P, p, ZERO, ONE, div_exact
from eng import Loc, iscond, Halt

DYNC_LEAF = {"vec_void::VecVoid", "elem::ElemInfo"}


class Ctx:
    """what is known about the element type of the object being made"""
    __slots__ = ("tau", "copy")

    def __init__(self, tau=None, copy=True):
        self.tau, self.copy = tau, copy


class World:
    def __init__(self, eng, item):
        self.eng = eng
        self.t = eng.tys
        self.item = item
        self.zero = False           # element types named by the caller, and those of single values, have size zero
        self.preds = item["preds"] if item else []
        self.n = 0

    # ------------------------------------------------------------ kinds of parameters
    def bounds(self, name):
        out = set()
        for x in self.preds:
            if x.startswith(name + ": "):
                out.add(x[len(name) + 2:])
        return out

    def is_table(self, ty):
        """a type parameter that stands for a function table"""
        if self.t.kind(ty) != "param":
            return False
        n = self.t.name(ty)
        b = self.bounds(n)
        if any(x.startswith("traits::Has") or x.startswith("vtable::VTable") for x in b):
            return True
        if n in ("V", "U"):
            return True
        return False

    def is_copy(self, ty):
        b = self.bounds(self.t.name(ty))
        return "core::marker::Copy" in b or "elem::CopyElem" in b

    def is_opaque(self, ty):
        b = self.bounds(self.t.name(ty))
        return any(x.startswith(("core::hash::Hasher", "core::hash::BuildHasher", "core::iter::", "FnOnce", "FnMut", "Fn(",
                                 "core::convert::Into", "core::ops::function")) for x in b)

    # ------------------------------------------------------------ fresh values
    def tau(self, st):
        st.nsym += 1
        return "τ%d" % st.nsym

    def named(self, st, ty):
        term = self.t.register(ty)
        if self.zero and term not in st.zst:
            st.zst = st.zst | {term}
            st.size(term)
        return term

    def res(self, st, term, total, copy, what, owned=True):
        st.nsym += 1
        rid = ("in", st.nsym, what)
        st.res[rid] = Res(term, st.n(total), copy, owned, what)
        return rid

    def ext(self, st, o):
        st.nsym += 1
        k = ("X", st.nsym)
        st.mem[k] = o
        return k

    def count(self, st, base="n"):
        x = st.fresh(base)
        return x

    def buf(self, st, kind, term, n, cap, copy, what):
        """storage with n elements of type term and room for cap"""
        sz = st.size(term)
        rid = self.res(st, term, n * sz, copy, what)
        segs = [Seg(ZERO, st.n(n * sz), ("res", rid, ZERO))]
        if cap is not n:
            segs.append(Seg(st.n(n * sz), st.n(cap * sz), ("raw",)))
        st.fact(IMAX - cap * sz)
        if st.must(("ge", sz - 1)):
            st.fact(IMAX - cap)
        return Buf(kind, st.n(cap * sz), st.align(term), tuple(segs), True, None)

    def make(self, st, ty, cx=None, what="argument", own="heap"):
        t = self.t
        x = t.k(ty)
        k = x["k"]
        if k == "prim":
            if x["s"] == "bool":
                return st.freshbool()
            if x["s"] == "usize":
                i = st.fresh("i")
                st.fact(UMAX - i)
                return i
            return Opq(x["s"])
        if k in ("param", "alias"):
            if self.is_table(ty):
                return VT(None, cx.tau if cx and cx.tau else self.tau(st))
            if self.is_opaque(ty):
                return Opq(x["s"])
            term = self.named(st, ty)
            copy = self.is_copy(ty)
            rid = self.res(st, term, st.size(term), copy, what)
            return Tok(rid, ZERO, term)
        if k == "tuple":
            return Agg("tuple", 0, tuple(self.make(st, y, cx, what) for y in x["ts"]))
        if k in ("fnptr", "fndef", "closure", "dyn"):
            return Opq(k)
        if k == "array":
            raise Undec("array argument")
        if k in ("ref", "ptr"):
            return self.make_ref(st, x["t"], cx, what, x.get("mut"))
        if k == "adt":
            return self.make_adt(st, ty, x, cx, what)
        raise Undec("argument of type " + x["s"])

    def make_ref(self, st, t, cx, what, mut):
        x = self.t.k(t)
        if x["k"] == "slice":
            e = x["t"]
            if self.t.is_bytes(e):
                n = self.count(st)
                if cx is None or cx.tau is None:
                    o = self.ext(st, Buf("ext", n, ONE, (Seg(ZERO, n, ("plain",)),), True, None))
                    return Ptr(o, (), ZERO, n, None)
                o = self.ext(st, self.buf(st, "ext", cx.tau, n, n, cx.copy, what))
                return Ptr(o, (), ZERO, st.n(n * st.size(cx.tau)), None)
            if self.t.generic(e):
                term = self.named(st, e)
                n = self.count(st)
                o = self.ext(st, self.buf(st, "ext", term, n, n, self.is_copy(e), what))
                return Ptr(o, (), ZERO, n, None)
            raise Undec("slice argument " + x["s"])
        if x["k"] == "dyn" or (x["k"] == "prim" and x["s"] == "str"):
            return Opq(x["s"])
        v = self.make(st, t, cx, what)
        if isinstance(v, Opq):
            o = self.ext(st, Cell("ext", t, v, True))
            return Ptr(o, (), None, None, None)
        o = self.ext(st, Cell("ext", t, v, True))
        return Ptr(o, (), None, None, None)

    def make_adt(self, st, ty, x, cx, what):
        t = self.t
        path = x["path"]
        if t.transparent(ty):
            if path == "core::mem::maybe_uninit::MaybeUninit" and cx is not None and cx.tau and t.is_bytes(ty):
                return self.small(st, ty, cx, what)
            if path.startswith("core::ptr::"):
                raise Undec("pointer argument")
            return self.make(st, t.inner(ty), cx, what)
        if x.get("box"):
            return self.make_box(st, x["args"][0], cx, what)
        if path == "alloc::vec::Vec":
            e = x["args"][0]
            if not t.generic(e):
                raise Undec("vector argument " + x["s"])
            if st.choose(2) == 1:
                return VecV(None, None, ZERO, ZERO, e)
            term = self.named(st, e)
            n, cap = self.count(st), st.fresh("c")
            st.fact(cap - n)
            st.fact(cap - 1)
            o = self.heap(st, self.buf(st, "heap", term, n, cap, self.is_copy(e), what))
            return VecV(o, None, n, cap, e)
        if path.startswith("core::ops::range::"):
            fs = tuple(self.make(st, y, None, what) for _, y in t.fields(ty))
            if path.endswith("::RangeInclusive"):
                fs = fs[:2] + (("c", False),)
            return Agg("adt", 0, fs)
        if path == "core::any::TypeId":
            return TId(cx.tau if cx and cx.tau else self.tau(st))
        if not x.get("local"):
            if path == "core::option::Option":
                if st.choose(2) == 0:
                    return Agg("adt", 0, ())
                return Agg("adt", 1, (self.make(st, x["args"][0], cx, what),))
            return Opq(x["s"])
        return self.make_local(st, ty, x, cx, what)

    def heap(self, st, o):
        return self.eng.heap(st, o)

    def small(self, st, ty, cx, what):
        """inline storage of one value that fits"""
        n = self.t.size(st, ty)
        al = self.t.conc_size(ty)[1]
        sz = st.size(cx.tau)
        # only types of exactly this size are stored inline (Bytes::try_into_usize)
        if not st.equate(sz - n):
            raise Dead()
        st.fact(p(al) - st.align(cx.tau))
        rid = self.res(st, cx.tau, n, cx.copy, what)
        return Byt(n, (Seg(ZERO, n, ("res", rid, ZERO)),))

    def make_box(self, st, e, cx, what):
        t = self.t
        x = t.k(e)
        if x["k"] == "slice" and t.is_bytes(x["t"]):
            if cx is None or cx.tau is None:
                n = self.count(st)
                o = self.heap(st, Buf("heap", n, ONE, (Seg(ZERO, n, ("plain",)),), True, None))
                return Ptr(o, (), ZERO, n, None)
            o = self.heap(st, self.buf(st, "heap", cx.tau, ONE, ONE, cx.copy, what))
            return Ptr(o, (), ZERO, st.size(cx.tau), None)
        if x["k"] == "dyn":
            return Opq(x["s"])
        v = self.make(st, e, cx, what)
        o = self.heap(st, Cell("heap", e, v, True))
        return Ptr(o, (), None, None, None)

    def make_local(self, st, ty, x, cx, what):
        """an object of the analysed crate: every part describes the same element type"""
        t = self.t
        path = x["path"]
        cx = cx or Ctx()
        a = self.eng.s.adt(ty)
        names = {f["name"] for v in a["variants"] for f in v["fields"]}
        if cx.tau is None:
            cx = Ctx(self.tau(st), cx.copy)
            if self.zero and (path.startswith(("value::", "copy_value::")) or path == "meta::Meta"):
                st.zst = st.zst | {cx.tau}
                st.size(cx.tau)
        if path in ("vec_dyn::VecDyn", "slice::Slice", "slice::SliceMut", "value::Value", "value::ValueRef", "value::ValueMut"):
            cx = Ctx(cx.tau, False)
        if path == "vec_void::VecVoid":
            return self.vecvoid(st, ty, cx, what)
        if path == "elem::ElemInfo":
            return self.eleminfo(st, ty, cx)
        if x.get("enum"):
            i = st.choose(len(a["variants"]))
            return Agg("adt", i, tuple(self.make(st, f["ty"], cx, what) for f in a["variants"][i]["fields"]))
        fs = []
        one = path.startswith(("value::", "copy_value::"))
        for f in a["variants"][0]["fields"]:
            n, ft = f["name"], f["ty"]
            if n == "type_id":
                fs.append(TId(cx.tau))
            elif n == "alignment":
                fs.append(st.align(cx.tau))
            elif n in ("size",):
                raise Undec("size field of " + path)
            elif n == "bytes":
                fs.append(self.value_bytes(st, ft, cx, what))
            elif t.kind(ft) == "prim" and t.name(ft) not in ("bool",):
                raise Undec("field %s of %s" % (n, path))
            else:
                fs.append(self.make(st, ft, cx, what))
        return Agg("adt", 0, tuple(fs))

    def value_bytes(self, st, ft, cx, what):
        t = self.t
        while t.path(ft) == "core::mem::manually_drop::ManuallyDrop":
            ft = t.inner(ft)
        x = t.k(ft)
        if x["k"] == "ref" and t.kind(x["t"]) == "slice":
            o = self.ext(st, self.buf(st, "ext", cx.tau, ONE, ONE, cx.copy, what))
            return Ptr(o, (), ZERO, st.size(cx.tau), None)
        if t.is_box(ft):
            return self.make_box(st, x["args"][0], cx, what)
        if t.is_bytes(ft):
            return self.small(st, ft, cx, what)
        raise Undec("bytes of type " + x["s"])

    def eleminfo(self, st, ty, cx):
        fs = []
        for n, ft in self.t.fields(ty):
            if n == "type_id":
                fs.append(TId(cx.tau))
            elif n == "size":
                fs.append(st.units(cx.tau))
            elif n == "alignment":
                fs.append(st.align(cx.tau))
            else:
                raise Undec("field of ElemInfo")
        return Agg("adt", 0, tuple(fs))

    def vecvoid(self, st, ty, cx, what):
        fs = self.t.fields(ty)
        if [n for n, _ in fs] != ["ptr", "len", "cap", "elem"]:
            raise Undec("fields of VecVoid")
        e = self.eleminfo(st, fs[3][1], cx)
        # the crate keeps room for one element at least; checked wherever such a container is handed out
        n, cap = self.count(st), st.fresh("c")
        st.fact(cap - n)
        st.fact(cap - 1)
        o = self.heap(st, self.buf(st, "heap", cx.tau, n, cap, cx.copy, what))
        return Agg("adt", 0, (Ptr(o, (), ZERO, None, None), n, cap, e))

    def fresh(self, eng, st, ty, what):
        """the result of user code"""
        v = self.make(st, ty, None, what)
        return v


def build(eng, item, inst, zero=False):
    """every combination of shapes of valid arguments: initial states"""
    out = []
    scripts = [[]]
    w = World(eng, item)
    w.zero = zero
    eng.world = w
    b = eng.s.body(inst["inst"])
    if not b:
        return None
    drop = None
    root = inst["inst"]
    if item["impl_trait"] == "core::ops::drop::Drop":
        # analysed as the destruction of a whole value
        t = eng.tys.pointee(inst["in"][0])
        g = eng.glue(t, inst["env"])
        if g is None:
            raise Undec("drop glue")
        drop = (t,)
        root, b = g
    while scripts:
        sc = scripts.pop()
        st = St()
        st.script, st.spos = sc, 0
        try:
            if zero:
                st.zst = frozenset(n for n, k in item["generics"] if k == "ty" and n not in ("V", "U") and not any(
                    x.startswith(("traits::Has", "vtable::VTable", "core::iter::", "Fn", "core::convert::")) for x in w.bounds(n)))
                for n in st.zst:
                    dom.GENERIC.add(n)
                    st.size(n)
            if drop is not None:
                o = w.ext(st, Cell("dying", drop[0], w.make(st, drop[0], None, "the dropped value"), True))
                args = [Ptr(o, (), None, None, None)]
            else:
                args = [w.make(st, t, None, "arg%d" % (i + 1)) for i, t in enumerate(inst["in"])]
        except Dead:
            continue
        except Choice as c:
            scripts += [sc + [i] for i in range(c.n)]
            continue
        st.script, st.spos = (), 0
        eng.push(st, root, b, args, None)
        if zero and not st.zst:
            continue
        st.world = ("args", tuple(args), dict(st.mem))
        out.append(st)
    return out


# ---------------------------------------------------------------- results
class Check:
    """walks everything reachable from the results and the caller's objects"""

    def __init__(self, eng, st, unw):
        self.eng, self.st, self.unw = eng, st, unw
        self.t = eng.tys
        self.claims = {}
        self.objs = {}
        self.seen = set()
        self.tau = []
        self.bad = None

    def event(self, kind, msg):
        try:
            self.eng.event(self.st, kind, msg + (" (after a panic)" if self.unw else ""))
        except self.eng.Halt as x:
            self.bad = x        # the other rules are applied all the same

    def need(self, cond, kind, msg):
        try:
            self.eng.need(self.st, cond, kind, msg + (" (after a panic)" if self.unw else ""), final=True)
            return True
        except self.eng.Halt as x:
            self.bad = x
        return False

    # ---- ownership
    def own_obj(self, o):
        if o in self.objs:
            self.event("free", "two owners of the same memory")
        self.objs[o] = True

    def claim(self, rid, a, b, owner):
        st = self.st
        r = st.res[rid]
        if r.copy or st.eq(a, b):
            return
        for s in st.led.get((rid, "drop"), ()):
            self.need(("or", ("ge", s.s - b), ("ge", a - s.e)), "stale", "%s still holds a value that was dropped" % owner)
        for s in self.claims.get(rid, ()):
            self.need(("or", ("ge", s.s - b), ("ge", a - s.e)), "twice", "%s holds a value that something else holds too" % owner)
        self.claims.setdefault(rid, []).append(Seg(a, b, ("x",)))

    def elems(self, ptr, term, n, owner, claim, kind="mixed"):
        """n whole, live elements of type term at ptr"""
        st, eng = self.st, self.eng
        n = st.n(n)
        if st.must(("eq", n)):
            return
        if ptr.obj is None:
            return self.event("bounds", "%s has elements but no storage" % owner)
        sz = st.size(term)
        size, segs, _ = eng.storage(st, Loc(ptr.obj, ptr.path, ptr.off, None))
        off = ptr.off or ZERO
        end = st.n(off + n * sz)
        ok = self.need(("ge", off), "bounds", "%s starts before its storage" % owner)
        ok = self.need(("ge", size - end), "bounds", "%s reaches past its storage" % owner) and ok
        if not ok:
            # what lies there may be of another type as well
            for s in segs:
                if s.w[0] == "res" and st.decide(("tid", st.res[s.w[1]].term, term)) is not True and st.decide(("ge", off - s.s)) is True \
                        and st.decide(("ge", s.e - off - 1)) is True:
                    self.event(kind, "%s describes its elements as %s, but holds values of type %s" % (owner, st.t(term), st.t(st.res[s.w[1]].term)))
            return
        pre, mid, post = st.cut(segs, off, end)
        mid = st.merge(mid)
        for s in mid:
            if s.w[0] == "raw":
                self.need(("ge", s.s - s.e), "uninit", "%s counts memory without values as elements" % owner)
                continue
            if s.w[0] == "unk":
                raise Undec("unknown bytes as elements")
            if s.w[0] == "plain":
                self.need(("ge", s.s - s.e), "uninit", path + " holds bytes that are not values of its type")
                continue
            r = st.res[s.w[1]]
            if st.decide(("tid", r.term, term)) is not True:
                self.event(kind, "%s describes its elements as %s, but holds values of type %s" % (owner, st.t(term), st.t(r.term)))
                continue
            a, b = st.n(s.s + s.w[2]), st.n(s.e + s.w[2])
            eng.whole(st, a, sz, "held by " + owner)
            eng.whole(st, st.n(s.s - off), sz, "held by " + owner)
            if claim:
                self.claim(s.w[1], a, b, owner)
            else:
                eng.alive(st, s.w[1], a, b, "seen through " + owner)
        if not st.covered(mid, off, end):
            raise Undec("elements outside known storage")

    def same(self, a, b, what, owner):
        st = self.st
        if not isinstance(a, P):
            raise Undec("%s of %s" % (what, owner))
        self.need(("eq", a - b), "meta", "%s: %s is %s instead of %s" % (owner, what, st.n(a), st.n(b)))

    def table(self, v, term, owner):
        """a function table stored next to elements of type term"""
        st = self.st
        if isinstance(v, Agg) and v.kind == "adt" and len(v.fields) == 1:
            v = v.fields[0]
        if isinstance(v, Ptr):
            if v.obj is None:
                return
            v = self.eng.load(st, self.eng.at(st, v, self.eng.obj(st, v.obj).ty if isinstance(st.mem.get(v.obj), Cell) else None))
        if isinstance(v, VT) and st.decide(("tid", v.tau, term)) is not True:
            self.event("meta", "%s pairs the function table of %s with elements of type %s" % (owner, st.t(v.tau), st.t(term)))

    # ---- values
    def walk(self, v, ty, claim=True, path="the result"):
        st, t, eng = self.st, self.t, self.eng
        if isinstance(v, Opq) or iscond(v) or isinstance(v, (TId, P, Fn, FnP, FnTok, VT, It)):
            if isinstance(v, It) and v.kind == "slice":
                self.iter_slice(v, path)
            return
        if v is HAVOC:
            raise Undec("unknown result")
        x = t.k(ty)
        k = x["k"]
        if k in ("ref", "ptr"):
            return self.ref(v, x["t"], path, k)
        if k in ("param", "alias"):
            if v is UNINIT:
                return self.event("uninit", path + " is not initialised")
            if not isinstance(v, Tok):
                raise Undec("result of type " + x["s"])
            eng.retype(st, v, ty)
            eng.whole(st, v.off, st.size(v.term), "used as " + path)
            if claim:
                self.claim(v.rid, v.off, st.n(v.off + st.size(v.term)), path)
            else:
                eng.alive(st, v.rid, v.off, st.n(v.off + st.size(v.term)), "seen through " + path)
            return
        if k == "tuple" and not x["ts"]:
            return
        if k in ("tuple", "closure"):
            if v is UNINIT:
                raise Undec("uninitialised result")
            ts = [y for _, y in t.fields(ty)]
            for i, y in enumerate(v.fields):
                self.walk(y, ts[i], claim, path)
            return
        if k != "adt":
            return
        p_ = x["path"]
        if v is UNINIT:
            if p_ == "core::mem::maybe_uninit::MaybeUninit" or not t.has_drop(ty):
                return
            return self.event("uninit", path + " is not initialised")
        if isinstance(v, (Byt, Tok)) and t.is_bytes(ty):
            return self.bytes_claim(eng.bytes_of(st, v, ty)[1], claim, path)
        if t.transparent(ty):
            return self.walk(v, t.inner(ty), claim, path)
        if x.get("box"):
            return self.box(v, x["args"][0], claim, path)
        if p_ == "alloc::vec::Vec":
            return self.vec(v, claim, path)
        if not isinstance(v, Agg):
            if isinstance(v, (Byt, Tok)):
                return
            raise Undec("result %s" % type(v).__name__)
        if p_ == "vec_void::VecVoid":
            return self.vecvoid(v, ty, claim, path)
        if x.get("local"):
            return self.local(v, ty, x, claim, path)
        a = eng.s.adt(ty)
        if a:
            fs = a["variants"][v.variant]["fields"]
            for i, y in enumerate(v.fields):
                self.walk(y, fs[i]["ty"], claim, path)

    def iter_slice(self, it, path):
        v, ety, n = it.a
        f, b = it.pos
        if self.t.generic(ety):
            st = self.st
            q = v._replace(off=st.n((v.off or ZERO) + f * st.size(self.t.register(ety))))
            self.elems(q, self.t.register(ety), st.n(b - f), path, False, "type")

    def ref(self, v, t, path, k):
        st, eng = self.st, self.eng
        if not isinstance(v, Ptr) or v.obj is None or k == "ptr":
            return
        x = self.t.k(t)
        o = st.mem.get(v.obj)
        if o is None:
            raise Undec("reference to a missing object")
        if not o.alive:
            return self.event("uaf", path + " refers to memory that was freed")
        if x["k"] == "slice":
            if v.meta is None:
                raise Undec("slice without length")
            if self.t.generic(x["t"]):
                self.elems(v._replace(meta=None), self.t.register(x["t"]), v.meta, path, False, "type")
            else:
                sz, segs, _ = eng.storage(st, Loc(v.obj, v.path, v.off, None))
                n = v.meta * self.t.size(st, x["t"])
                self.need(("ge", sz - (v.off or ZERO) - n), "bounds", path + " reaches past its storage")
            return
        if v.obj[0] == "X" and not v.path and v.off is None:
            return   # one of the caller's objects, walked on its own
        if x["k"] in ("dyn", "prim"):
            return
        if (v.obj, v.path, self.t.name(t)) in self.seen:
            return
        self.seen.add((v.obj, v.path, self.t.name(t)))
        if self.t.generic(t) and (isinstance(o, Buf) or v.off is not None):
            self.elems(v, self.t.register(t), ONE, path, False, "type")
            return
        val = eng.load(st, eng.at(st, v, t))
        self.walk(val, t, False, path)

    def box(self, v, e, claim, path):
        st, eng, t = self.st, self.eng, self.t
        if not isinstance(v, Ptr):
            raise Undec("box")
        x = t.k(e)
        if v.obj is None:
            if v.meta is not None:
                self.need(("eq", v.meta), "bounds", path + " is a box without storage")
            return
        if claim:
            self.own_obj(v.obj)
        o = eng.obj(st, v.obj)
        if x["k"] == "slice":
            n = v.meta
            if t.is_bytes(x["t"]):
                # plain box of bytes: what it releases must be what was allocated
                self.need(("eq", n - o.size), "layout", path + " is a box of another size than its allocation")
                if claim == "typed":
                    return
                self.need(("eq", o.align - 1), "layout", path + " is released with alignment 1 instead of %s" % o.align)
                self.bytes_claim(o.segs, claim, path)
                return
            self.elems(v._replace(meta=None), t.register(x["t"]), n, path, claim)
            return
        if isinstance(o, Cell):
            return self.walk(o.val, e, claim, path)
        if t.generic(e):
            sz = t.size(st, e)
            self.need(("eq", o.size - sz), "layout", "%s is a box of %s, its storage has %s bytes" % (path, t.name(e), st.n(o.size)))
            self.need(("eq", o.align - t.align(st, e)), "layout", "%s is a box of %s, its storage has alignment %s" % (path, t.name(e), st.n(o.align)))
            return self.elems(v._replace(meta=None), t.register(e), ONE, path, claim)
        raise Undec("box of " + x["s"])

    def bytes_claim(self, segs, claim, path):
        st = self.st
        for s in segs:
            if s.w[0] == "res" and claim:
                self.claim(s.w[1], st.n(s.s + s.w[2]), st.n(s.e + s.w[2]), path)

    def vec(self, v, claim, path):
        st, eng, t = self.st, self.eng, self.t
        if not isinstance(v, VecV):
            raise Undec("vector result")
        if v.obj is None:
            if st.decide(("eq", v.len)) is not True and t.size(st, v.ety).const() != 0:
                self.need(("eq", v.len), "bounds", path + " has elements but no storage")
            return
        o = eng.obj(st, v.obj)
        if claim:
            self.own_obj(v.obj)
        sz = t.size(st, v.ety)
        self.need(("ge", v.cap - v.len), "bounds", path + " is longer than its capacity")
        self.need(("eq", o.size - v.cap * sz), "layout", path + ": capacity of a vector does not match its allocation")
        self.need(("eq", o.align - t.align(st, v.ety)), "layout", path + ": alignment of a vector does not match its allocation")
        if t.generic(v.ety):
            self.elems(Ptr(v.obj, (), ZERO, None, None), t.register(v.ety), v.len, path, claim)

    def vecvoid(self, v, ty, claim, path):
        st, eng = self.st, self.eng
        ptr, n, cap, e = v.fields
        tid = self.meta(e, self.t.fields(ty)[3][1], path)
        if tid is None:
            return
        self.need(("ge", st.units(tid) - 1), "zst", path + " is a vector of zero-sized elements")
        if ptr is UNINIT:
            return self.event("uninit", path + " is not initialised")
        if not isinstance(ptr, Ptr):
            raise Undec("pointer of " + path)
        sz = st.size(tid)
        if ptr.obj is None:
            if not st.must(("eq", sz)):
                self.need(("eq", cap), "layout", path + " has a capacity but no storage")
            self.need(("eq", n), "bounds", path + " has elements but no storage")
            if claim and not st.must(("eq", sz)):
                self.event("layout", path + " has no storage, so it could not grow by whole elements")
            return
        self.need(("ge", cap - n), "bounds", path + " is longer than its capacity")
        if st.must(("eq", cap)):
            return
        o = eng.obj(st, ptr.obj)
        if claim:
            self.own_obj(ptr.obj)
        if ptr.off is not None:
            self.need(("eq", ptr.off), "layout", path + " does not point to the start of its storage")
        self.need(("eq", o.size - cap * sz), "layout", path + ": capacity times element size is %s, the allocation has %s bytes" % (st.n(cap * sz), st.n(o.size)))
        self.need(("eq", o.align - st.align(tid)), "layout", path + ": element alignment is %s, the allocation's is %s" % (st.align(tid), st.n(o.align)))
        self.elems(ptr, tid, n, path, claim)

    def meta(self, e, ty, path):
        """type id, size and alignment describe the same type"""
        st = self.st
        if e is UNINIT:
            return self.event("uninit", path + " is not initialised")
        if not isinstance(e, Agg):
            raise Undec("element description of " + path)
        names = [n for n, _ in self.t.fields(ty)]
        d = dict(zip(names, e.fields))
        tid = d["type_id"]
        if not isinstance(tid, TId):
            raise Undec("type id of " + path)
        term = st.t(tid.term)
        self.same(d["size"], st.units(term), "element size", path)
        self.same(d["alignment"], st.align(term), "element alignment", path)
        return term

    def local(self, v, ty, x, claim, path):
        st, eng, t = self.st, self.eng, self.t
        p_ = x["path"]
        a = eng.s.adt(ty)
        fs = a["variants"][v.variant]["fields"]
        d = {}
        for i, f in enumerate(fs):
            if i < len(v.fields):
                d[f["name"]] = (v.fields[i], f["ty"])
        nm = p_.rsplit("::", 1)[-1]
        path = path if path.startswith("the ") is False else path
        owner = "%s (%s)" % (path, nm)
        if p_ == "elem::ElemInfo":
            self.meta(v, ty, owner)
            return
        if "elem" in d and "data" in d and p_ != "vec_void::VecVoid":        # SliceCopy..
            term = self.meta(d["elem"][0], d["elem"][1], owner)
            if term is None:
                return
            data = d["data"][0]
            if not isinstance(data, Ptr) or not isinstance(data.meta, P):
                raise Undec("data of " + owner)
            sz = st.size(term)
            self.need(("ge", st.units(term) - 1), "zst", path + " is a slice of zero-sized elements")
            if st.must(("eq", data.meta)):
                pass
            else:
                q = div_exact(st.n(data.meta), sz)
                if q is None:
                    eng.whole(st, data.meta, sz, "covered by " + owner)
                    q = div_exact(st.n(data.meta), sz)
                    if q is None:
                        raise Undec("length of " + owner)
                self.elems(data._replace(meta=None), term, q, owner, False)
            self.table(self.tval(d), term, owner)
            self.rest(d, ("elem", "data"), claim, path)
            return
        if "type_id" in d and "bytes" in d:
            tid, al = d["type_id"][0], d["alignment"][0]
            if not isinstance(tid, TId):
                raise Undec("type id of " + owner)
            term = st.t(tid.term)
            self.same(al, st.align(term), "alignment", owner)
            self.value_bytes(d["bytes"], term, owner, claim)
            self.table(self.tval(d), term, owner)
            self.rest(d, ("type_id", "alignment", "bytes"), claim, path)
            return
        if p_ == "vec_copy::VecCopy":
            data, dt = d["data"]
            if not isinstance(data, Agg):
                raise Undec("data of " + owner)
            self.vecvoid(data, dt, claim, owner)
            term = self.meta(data.fields[3], t.fields(dt)[3][1], owner)
            if term is None:
                return
            self.table(self.tval(d), term, owner)
            self.rest(d, ("data",), claim, path)
            return
        if "elem" in d and "vtable" in d:
            term = self.meta(d["elem"][0], d["elem"][1], owner)
            if term is None:
                return
            self.table(self.tval(d), term, owner)
            self.rest(d, ("elem",), claim, path)
            return
        self.rest(d, (), claim, owner)

    def tval(self, d):
        return d["vtable"][0] if "vtable" in d else None

    def rest(self, d, skip, claim, path):
        for n, (v, ty) in d.items():
            if n not in skip:
                self.walk(v, ty, claim, path)

    def value_bytes(self, f, term, owner, claim):
        st, eng, t = self.st, self.eng, self.t
        v, ty = f
        while t.path(ty) == "core::mem::manually_drop::ManuallyDrop":
            ty = t.inner(ty)
        sz = st.size(term)
        if t.kind(ty) == "ref":
            if not isinstance(v, Ptr) or not isinstance(v.meta, P):
                raise Undec("bytes of " + owner)
            self.need(("eq", v.meta - sz), "meta", "%s covers %s bytes instead of one element (%s)" % (owner, st.n(v.meta), sz))
            return self.elems(v._replace(meta=None), term, ONE, owner, False)
        if t.is_box(ty):
            if not isinstance(v, Ptr) or not isinstance(v.meta, P):
                raise Undec("bytes of " + owner)
            self.need(("eq", v.meta - sz), "meta", "%s covers %s bytes instead of one element (%s)" % (owner, st.n(v.meta), sz))
            if v.obj is None:
                raise Undec("bytes of " + owner)
            o = eng.obj(st, v.obj)
            if isinstance(o, Cell) and t.generic(o.ty):
                n, segs = eng.bytes_of(st, o.val, o.ty)
                o = st.mem[v.obj] = Buf(o.kind, n, t.align(st, o.ty), tuple(segs), o.alive, None)
            if claim:
                self.own_obj(v.obj)
            self.need(("eq", o.size - sz), "layout", owner + ": storage of %s bytes for an element of %s" % (st.n(o.size), sz))
            self.need(("eq", o.align - st.align(term)), "layout", owner + ": storage with alignment %s for an element with alignment %s" % (st.n(o.align), st.align(term)))
            return self.elems(v._replace(meta=None), term, ONE, owner, claim)
        if isinstance(v, Tok):
            n, segs = eng.bytes_of(st, v, ty)
            v = Byt(n, segs)
        if isinstance(v, Byt):
            self.need(("ge", v.size - sz), "bounds", owner + ": inline storage of %s bytes for an element of %s" % (v.size, sz))
            c = t.conc_size(ty)
            if c:
                self.need(("ge", p(c[1]) - st.align(term)), "layout", owner + ": inline storage is aligned to %s, the element needs %s" % (c[1], st.align(term)))
            pre, mid, post = st.cut(v.segs, ZERO, sz)
            for s in st.merge(mid):
                if s.w[0] == "raw":
                    self.event("uninit", owner + " holds no value")
                    continue
                if s.w[0] != "res":
                    raise Undec("bytes of " + owner)
                r = st.res[s.w[1]]
                if st.decide(("tid", r.term, term)) is not True:
                    self.event("mixed", "%s is described as %s, but holds a value of type %s" % (owner, st.t(term), st.t(r.term)))
                    continue
                a, b = st.n(s.s + s.w[2]), st.n(s.e + s.w[2])
                eng.whole(st, a, sz, "held by " + owner)
                if claim:
                    self.claim(s.w[1], a, b, owner)
            return
        if v is UNINIT:
            return self.event("uninit", owner + " holds no value")
        raise Undec("bytes of " + owner)

    # ---- everything the caller can see
    def run(self, ret, rty):
        st, eng = self.st, self.eng
        if ret is not None:
            self.soft(self.walk, ret, rty, True, "the result")
        for k, o in list(st.mem.items()):
            if k[0] == "X" and o.kind != "dying":
                if not o.alive:
                    self.event("free", "an object of the caller is freed")
                elif isinstance(o, Cell):
                    self.soft(self.walk, o.val, o.ty, True, "the caller's object")
                else:
                    self.soft(self.caller_buf, o)
        if self.bad is None:
            self.soft(self.balance)
        if self.bad is not None:
            raise self.bad

    def soft(self, f, *args):
        try:
            f(*args)
        except self.eng.Halt as x:
            self.bad = x
        except Undec:
            if self.bad is None:
                raise

    def caller_buf(self, o):
        st = self.st
        for s in st.merge(o.segs):
            if s.w[0] == "raw":
                self.event("uninit", "the caller's elements are moved out")
            if s.w[0] == "res":
                self.claim(s.w[1], st.n(s.s + s.w[2]), st.n(s.e + s.w[2]), "the caller's storage")

    def balance(self):
        st = self.st
        self.eng.tick("leak")
        self.eng.tick("leakmem")
        for rid, r in st.res.items():
            if r.copy or not r.owned:
                continue
            led = list(st.led.get((rid, "drop"), ()))
            for c in self.claims.get(rid, ()):
                led = list(st.ladd(led, c.s, c.e))
            led = st.merge(led)
            ok = st.eq(r.total, ZERO) or (len(led) == 1 and st.eq(led[0].s, ZERO) and st.eq(led[0].e, r.total))
            if not ok and not self.unw:
                if not led:
                    if st.must(("eq", r.total)):
                        continue
                    self.event("leak", "%s: values are neither dropped nor kept" % (r.what,))
                x = ZERO
                for s in led:
                    self.need(("eq", s.s - x), "leak", "%s: values are neither dropped nor kept" % (r.what,))
                    x = s.e
                self.need(("eq", r.total - x), "leak", "%s: values are neither dropped nor kept" % (r.what,))
        if not self.unw:
            for k, o in st.mem.items():
                if k[0] == "H" and o.alive and k not in self.objs:
                    if isinstance(o, Buf) and st.must(("eq", o.size)):
                        continue
                    self.event("leakmem", "memory is never released")


def on_exit(rty):
    def f(eng, st):
        Check(eng, st, False).run(st.ret, rty)
    return f


def on_unwind(eng, st):
    Check(eng, st, True).run(None, None)
