"""Meaning of the standard library's leaf functions and of user code reached through generic parameters."""
from dom import *
from poly import P, p, ZERO, ONE, div_exact
import eng as E
from eng import Unw, Loc, iscond, neg


class Decline:
    pass


DECLINE = Decline()


class Tail:
    """continue in another function whose result is the result of the call"""

    def __init__(self, kind, f, args, argtys=None, dty=None):
        self.kind, self.f, self.args, self.argtys, self.dty = kind, f, args, argtys, dty


M = {}
PRE = []


def model(*paths):
    def deco(f):
        for x in paths:
            M[x] = f
        return f
    return deco


UNRES = {}


def unres(*paths):
    """model of a trait method of a type parameter"""
    def deco(f):
        for x in paths:
            UNRES[x] = f
        return f
    return deco


def prefix(*ps):
    def deco(f):
        for x in ps:
            PRE.append((x, f))
        return f
    return deco


def find(eng, c, kind):
    if kind == "unres" and c.path in UNRES:
        return UNRES[c.path]
    f = M.get(c.path)
    if f is not None:
        return f
    if c.trait:
        f = M.get(c.trait + "::" + c.name)
        if f is not None:
            return f
    for x, f in PRE:
        if c.path.startswith(x):
            return f
    return None


# ---------------------------------------------------------------- helpers
def some(v):
    return Agg("adt", 1, (v,))


NONE = Agg("adt", 0, ())


def selfty(c):
    return c.gargs[0]


def pt(eng, c, i=0):
    """type an argument points to"""
    t = eng.tys.pointee(c.argtys[i])
    if t is None:
        raise Undec("argument of " + c.path)
    return t


def deref(eng, st, v, t):
    if not isinstance(v, Ptr):
        raise Undec("reference expected")
    return eng.load(st, eng.at(st, v, t))


def put(eng, st, v, t, x):
    if not isinstance(v, Ptr):
        raise Undec("reference expected")
    eng.store(st, eng.at(st, v, t), x)


def num(v):
    if not isinstance(v, P):
        raise Undec("number expected")
    return v


def slice_of(v):
    if not isinstance(v, Ptr) or not isinstance(v.meta, P):
        raise Undec("slice expected")
    return v, v.meta


def panic(st, why):
    st.notes = st.notes + ("panic: " + why,)
    raise Unw()


def vec_at(eng, st, v, t):
    x = deref(eng, st, v, t)
    if isinstance(x, Byt) or not isinstance(x, VecV):
        raise Undec("vector expected")
    return x


def new_buf(eng, st, size, align, segs):
    st.fact(IMAX - size)
    return eng.heap(st, Buf("heap", st.n(size), st.n(align), tuple(segs), True, None))


def raw(a, b):
    return Seg(a, b, ("raw",))


def owner_fn(eng, st):
    w = eng.where(st)
    return w[0][0] if w else "?"


# ---------------------------------------------------------------- clones
def clone_range(eng, st, rid, a, b, bulk=True):
    """clones the elements at bytes [a,b) of a resource; returns (rid', offset)"""
    r = st.res[rid]
    if r.copy:
        return rid, a
    fam = ("cl", rid, owner_fn(eng, st))
    if fam not in st.res:
        st.res[fam] = Res(r.term, ZERO, False, True, "clones made by " + fam[2])
    f = st.res[fam]
    at = st.n(f.total)
    n = st.n(b - a)
    st.res[fam] = f._replace(total=st.n(at + n))
    prov = list(st.led.get((fam, "prov"), ()))
    d = st.n(a - at)
    if prov:
        l = prov[-1]
        sz = st.size(r.term)
        if l.w[0] == "of" and st.eq(l.w[2], d):
            prov[-1] = Seg(l.s, st.n(at + n), l.w)
        elif l.w[0] == "rep" and st.eq(l.w[2], a) and st.eq(n, sz):
            prov[-1] = Seg(l.s, st.n(at + n), l.w)
        elif l.w[0] == "of" and st.eq(l.e - l.s, sz) and st.eq(n, sz) and st.eq(l.s + l.w[2], a):
            prov[-1] = Seg(l.s, st.n(at + n), ("rep", rid, a))
        else:
            prov.append(Seg(at, st.n(at + n), ("of", rid, d)))
    else:
        prov.append(Seg(at, st.n(at + n), ("of", rid, d)))
    st.led[(fam, "prov")] = tuple(prov)
    return fam, at


def clone_tok(eng, st, v):
    eng.alive(st, v.rid, v.off, st.n(v.off + st.size(v.term)), "cloned")
    eng.may_unwind(st)
    rid, off = clone_range(eng, st, v.rid, v.off, st.n(v.off + st.size(v.term)))
    return Tok(rid, off, v.term)


def clone_value(eng, st, v, ty):
    """clone of a value whose clone has no effect on owned storage"""
    if isinstance(v, Tok):
        return clone_tok(eng, st, v)
    if isinstance(v, (VT, P, TId, Opq, FnTok, Fn, FnP)) or iscond(v):
        return v
    if isinstance(v, Agg) and all(isinstance(x, (VT, P, TId, Opq, FnTok, Fn, FnP)) or iscond(x) for x in v.fields):
        return v
    if isinstance(v, Ptr) and eng.tys.kind(ty) in ("ref", "ptr"):
        return v
    if isinstance(v, Byt) and eng.tys.is_bytes(ty):
        return v
    return None


# ---------------------------------------------------------------- entries of function tables
def elem_arg(eng, st, v, tau, what):
    eng.tick("vtab")
    v, n = slice_of(v)
    sz = st.size(tau)
    eng.need(st, ("eq", n - sz), "vtab", "a function of the table gets %s bytes instead of one element" % st.n(n))
    if v.obj is None:
        raise Undec("element at an unknown place")
    ty = eng.tys.mk(["maybe", eng.tys.mk("u8")]) if False else None
    size, segs, _ = eng.storage(st, Loc(v.obj, v.path, v.off, None))
    off = v.off or ZERO
    eng.inside(st, off, sz, size, what)
    return v, segs, off, sz


def elem_read(eng, st, v, tau, what):
    v, segs, off, sz = elem_arg(eng, st, v, tau, what)
    pre, mid, post = st.cut(segs, off, off + sz)
    mid = st.merge(mid)
    if any(s.w[0] == "raw" for s in mid):
        eng.event(st, "uninit", "memory without a value is %s through the function table" % what)
    if any(s.w[0] == "plain" for s in mid):
        eng.event(st, "uninit", "bytes that are not a value are %s through the function table" % what)
    if any(s.w[0] != "res" for s in mid):
        raise Undec("unknown bytes as element")
    if len(mid) != 1 or not st.covered(mid, off, off + sz):
        raise Undec("element in several pieces" + (" %s %s-%s facts %s" % (mid, off, off + sz, st.facts) if eng.trace else ""))
    w = mid[0].w
    r = st.res[w[1]]
    if st.decide(("tid", r.term, tau)) is not True:
        eng.event(st, "vtab", "an element of type %s is %s by the function table of %s" % (st.t(r.term), what, st.t(tau)))
    x = st.n(off + w[2])
    eng.whole(st, x, sz, what)
    eng.alive(st, w[1], x, st.n(x + sz), what)
    return w[1], x, sz


def note(eng, st, what):
    """counts what is done to elements of single values, see specs.Driver.signature"""
    if eng.noting:
        k = ("note", what)
        st.led[k] = (min(st.led.get(k, (0,))[0] + 1, 3),)


def table_call(eng, st, f, args, dty):
    k, tau = f.kind, f.tau
    note(eng, st, k)
    if st.decide(("eq", st.size(tau))) is True:
        # elements without bytes cannot be told apart
        if k == "clone_into_raw" and not st.must(("eq", slice_of(args[1])[1])):
            panic(st, "a clone does not fit the destination")
        eng.may_unwind(st)
        if k == "clone":
            return Ptr(None, (), ZERO, ZERO, None)
        if k == "eq":
            r = st.freshbool()
            if st.must(r):
                return TRUE
            st.led[("eq", "differ")] = (("pair", None, ZERO, None, ZERO),)
            return FALSE
        return result_opq(eng, st) if k == "fmt" else UNIT
    if k == "drop":
        rid, x, sz = elem_read(eng, st, args[0], tau, "dropped")
        eng.add_drop(st, rid, x, st.n(x + sz))
        eng.may_unwind(st)
        return UNIT
    if k == "clone":
        rid, x, sz = elem_read(eng, st, args[0], tau, "cloned")
        eng.may_unwind(st)
        r2, o2 = clone_range(eng, st, rid, x, st.n(x + sz))
        b = new_buf(eng, st, sz, st.align(tau), [Seg(ZERO, sz, ("res", r2, o2))])
        return Ptr(b, (), ZERO, sz, None)
    if k == "clone_into_raw":
        rid, x, sz = elem_read(eng, st, args[0], tau, "cloned")
        if not st.must(("eq", slice_of(args[1])[1] - sz)):
            # the adapter clones first and then refuses to copy
            panic(st, "a clone does not fit the destination")
        d, segs, off, sz = elem_arg(eng, st, args[1], tau, "cloned into")
        eng.may_unwind(st)
        r2, o2 = clone_range(eng, st, rid, x, st.n(x + sz))
        eng.write(st, Loc(d.obj, d.path, d.off, None), (Seg(ZERO, sz, ("res", r2, o2)),), sz)
        return UNIT
    if k == "clone_from":
        rid, x, sz = elem_read(eng, st, args[1], tau, "cloned")
        drid, dx, sz = elem_read(eng, st, args[0], tau, "cloned over")
        d = args[0]
        eng.may_unwind(st)
        eng.add_drop(st, drid, dx, st.n(dx + sz))
        r2, o2 = clone_range(eng, st, rid, x, st.n(x + sz))
        eng.write(st, Loc(d.obj, d.path, d.off, None), (Seg(ZERO, sz, ("res", r2, o2)),), sz)
        return UNIT
    if k == "eq":
        a = elem_read(eng, st, args[0], tau, "compared")
        b = elem_read(eng, st, args[1], tau, "compared")
        eng.may_unwind(st)
        return eng.models.compare(eng, st, a, b)
    if k == "hash":
        a = elem_read(eng, st, args[0], tau, "hashed")
        hashed(eng, st, a)
        eng.may_unwind(st)
        return UNIT
    if k == "fmt":
        hashed(eng, st, elem_read(eng, st, args[0], tau, "formatted"), ("fmt", "elems"))
        eng.may_unwind(st)
        return result_opq(eng, st)
    raise Undec("table entry " + k)


def compare(eng, st, a, b):
    """user comparison of two elements: unknown outcome, remembered for the pair"""
    r = st.freshbool()
    if st.must(r):
        led_pair(st, "same", a, b)
        return TRUE
    st.led[("eq", "differ")] = (("pair", a[0], st.n(a[1]), b[0], st.n(b[1])),)
    return FALSE


def led_pair(st, kind, a, b):
    """elements a and b (rid, offset, size) compared equal; runs of pairs merge"""
    k = ("eq", kind)
    old = list(st.led.get(k, ()))
    d = st.n(b[1] - a[1])
    w = ("pair", a[0], b[0], d)
    if old:
        l = old[-1]
        if l.w[:3] == w[:3] and st.eq(l.w[3], d) and st.eq(l.e, a[1]):
            old[-1] = Seg(l.s, st.n(a[1] + a[2]), l.w)
            st.led[k] = tuple(old)
            return
    old.append(Seg(st.n(a[1]), st.n(a[1] + a[2]), w))
    st.led[k] = tuple(old)


def hashed(eng, st, a, k=("hash", "elems")):
    """element a (rid, offset, size) was taken in by a hash (or formatted, converted); runs of elements merge"""
    old = list(st.led.get(k, ()))
    x, y = a[1], st.n(a[1] + a[2])
    l = old[-1] if old else None
    if l and l.w == ("h", a[0]) and st.eq(l.e, x):
        old[-1] = Seg(l.s, y, l.w)
    elif l and l.w[1] == a[0] and st.eq(l.s, y) and (l.w[0] == "back" or st.eq(l.e - l.s, a[2])):
        old[-1] = Seg(x, l.e, ("back", a[0]))
    else:
        old.append(Seg(x, y, ("h", a[0])))
    st.led[k] = tuple(old)


def result_opq(eng, st):
    return Agg("adt", 0, (UNIT,)) if st.choose(2) == 0 else Agg("adt", 1, (Opq("err"),))


ACC = {"drop_fn": "drop", "clone_fn": "clone", "clone_from_fn": "clone_from", "clone_into_raw_fn": "clone_into_raw",
       "hash_fn": "hash", "eq_fn": "eq", "fmt_fn": "fmt"}


@model("traits::HasDrop::drop_fn", "traits::HasClone::clone_fn", "traits::HasClone::clone_from_fn",
       "traits::HasClone::clone_into_raw_fn", "traits::HasHash::hash_fn", "traits::HasPartialEq::eq_fn",
       "traits::HasDebug::fmt_fn")
def m_accessor(eng, st, c):
    v = deref(eng, st, c.args[0], pt(eng, c))
    if not isinstance(v, VT):
        if c.info is not None:
            return DECLINE
        raise Undec("function table")
    t = eng.tys.pointee(c.dty)
    i = ("K", "fn", ACC[c.name], v.tau, repr(v.rid))
    if i not in st.mem:
        st.mem[i] = Cell("const", t, FnTok(ACC[c.name], v.tau), True)
    return Ptr(i, (), None, None, None)


@model("vtable::VTable::build_vtable")
def m_build(eng, st, c):
    if c.info is not None:
        return DECLINE
    t = eng.tys.register(c.gargs[1])
    return VT("vt", t)


# ---------------------------------------------------------------- user code
@model("core::clone::Clone::clone")
def m_clone(eng, st, c):
    t = pt(eng, c)
    if c.info is not None and c.info["local"]:
        return DECLINE
    v = deref(eng, st, c.args[0], t)
    r = clone_value(eng, st, v, t)
    if r is not None:
        return r
    if eng.tys.is_vec(t) and isinstance(v, VecV):
        return vec_clone(eng, st, v)
    if eng.tys.is_box(t):
        return box_clone(eng, st, v, eng.tys.k(t)["args"][0])
    if c.info is None:
        raise Undec("clone of " + eng.tys.name(t))
    return DECLINE


@model("<alloc::vec::Vec<T, A> as core::clone::Clone>::clone")
def m_vec_clone(eng, st, c):
    return vec_clone(eng, st, vec_at(eng, st, c.args[0], pt(eng, c)))


@model("<alloc::boxed::Box<T, A> as core::clone::Clone>::clone", "<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone")
def m_box_clone(eng, st, c):
    t = pt(eng, c)
    return box_clone(eng, st, deref(eng, st, c.args[0], t), eng.tys.k(t)["args"][0])


def box_clone(eng, st, v, t):
    if eng.tys.kind(t) == "slice":
        e = eng.tys.k(t)["t"]
        v, n = slice_of(v)
        if eng.tys.is_bytes(e):
            sz = eng.tys.size(st, e)
            size, segs, _ = eng.storage(st, Loc(v.obj, v.path, v.off, None))
            pre, mid, post = st.cut(segs, v.off or ZERO, (v.off or ZERO) + n * sz)
            b = new_buf(eng, st, n * sz, eng.tys.align(st, e), st.shift(mid, -(v.off or ZERO)))
            return Ptr(b, (), ZERO, n, None)
        raise Undec("clone of a boxed slice")
    x = deref(eng, st, v, t)
    y = clone_value(eng, st, x, t)
    if y is None:
        raise Undec("clone of a box")
    o = eng.heap(st, Cell("heap", t, y, True))
    return Ptr(o, (), None, None, None)


@model("core::clone::Clone::clone_from")
def m_clone_from(eng, st, c):
    t = pt(eng, c)
    if c.info is not None and c.info["local"]:
        return DECLINE
    if eng.tys.is_vec(t):
        return m_vec_clone_from(eng, st, c)
    d, s = deref(eng, st, c.args[0], t), deref(eng, st, c.args[1], t)
    if isinstance(d, Tok) and isinstance(s, Tok):
        n = clone_tok(eng, st, s)
        eng.drop_tok(st, d)
        put(eng, st, c.args[0], t, n)
        return UNIT
    if isinstance(s, (VT, P, TId, Opq)):
        put(eng, st, c.args[0], t, s)
        return UNIT
    return DECLINE


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(eng, st, c):
    t = pt(eng, c)
    a = deref(eng, st, c.args[0], t)
    t2 = pt(eng, c, 1)
    b = deref(eng, st, c.args[1], t2)
    pos = c.name == "eq"
    if isinstance(a, TId) and isinstance(b, TId):
        r = ("tid", a.term, b.term)
        return r if pos else neg(r)
    if isinstance(a, P) and isinstance(b, P):
        r = ("eq", a - b)
        return r if pos else neg(r)
    if isinstance(a, Tok) and isinstance(b, Tok):
        for v in (a, b):
            eng.alive(st, v.rid, v.off, st.n(v.off + st.size(v.term)), "compared")
        eng.may_unwind(st)
        r = compare(eng, st, (a.rid, a.off, st.size(a.term)), (b.rid, b.off, st.size(b.term)))
        return r if pos else neg(r)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and eng.tys.kind(t) == "ref" and c.name == "eq" and c.info is not None:
        return DECLINE
    if iscond(a) and iscond(b):
        return eng.binop(st, "Eq" if pos else "Ne", a, b, c.dty)
    if c.info is not None and eng.s.body(c.info["id"]):
        return DECLINE
    if isinstance(a, (Opq, VT)) or isinstance(b, (Opq, VT)):
        return st.freshbool()
    raise Undec("comparison of " + eng.tys.name(t))


@model("core::hash::Hash::hash")
def m_hash(eng, st, c):
    t = pt(eng, c)
    if c.info is not None and c.info["local"]:
        return DECLINE
    v = deref(eng, st, c.args[0], t)
    x = eng.tys.k(t)
    if x["k"] == "ref" and isinstance(v, Ptr):
        return m_hash_of(eng, st, deref(eng, st, v, x["t"]) if v.meta is None else None)
    return m_hash_of(eng, st, v)


def m_hash_of(eng, st, v):
    if isinstance(v, Tok):
        eng.alive(st, v.rid, v.off, st.n(v.off + st.size(v.term)), "hashed")
        hashed(eng, st, (v.rid, v.off, st.size(v.term)))
        eng.may_unwind(st)
        return UNIT
    k = ("hash", "other")
    st.led[k] = st.led.get(k, ()) + (hval(v),)
    return UNIT


def hval(v):
    if isinstance(v, P):
        return v
    if isinstance(v, (TId, Ptr)):
        return v
    return Opq("value")


@prefix("core::hash::Hasher::")
def m_hasher(eng, st, c):
    if c.name == "finish":
        return st.fresh("hash")
    k = ("hash", "other")
    st.led[k] = st.led.get(k, ()) + tuple(hval(x) for x in c.args[1:])
    return UNIT


@model("core::fmt::Debug::fmt", "core::fmt::Display::fmt", "core::fmt::LowerHex::fmt")
def m_fmt(eng, st, c):
    if c.info is not None and c.info["local"]:
        return DECLINE
    if c.argtys and c.path.startswith("core::fmt::Debug") and eng.tys.is_ptr(c.argtys[0]) and eng.tys.generic(eng.tys.pointee(c.argtys[0])):
        shown(eng, st, c.args[0], c.argtys[0])
    eng.may_unwind(st)
    return result_opq(eng, st)


def shown(eng, st, v, ty, depth=0):
    """a value about to be formatted: elements are remembered"""
    if depth < 4 and isinstance(v, Ptr) and v.obj is not None and eng.tys.is_ptr(ty):
        t = eng.tys.pointee(ty)
        if eng.tys.kind(t) in ("slice", "dyn") or eng.tys.name(t) == "str":
            return
        return shown(eng, st, deref(eng, st, v, t), t, depth + 1)
    part = origin(eng, st, v, ty)
    if part:
        hashed(eng, st, part, ("fmt", "elems"))


def origin(eng, st, v, ty):
    """(rid, offset, size) of the element a value is a copy of"""
    if isinstance(v, Tok):
        return v.rid, v.off, st.size(v.term)
    if isinstance(v, Byt):
        n = st.n(eng.tys.size(st, ty))
        pre, mid, post = st.cut(v.segs, ZERO, n)
        if len(mid) == 1 and mid[0].w[0] == "res":
            return mid[0].w[1], st.n(mid[0].s + mid[0].w[2]), n


@prefix("core::fmt::rt::Argument::")
def m_fmtarg(eng, st, c):
    if c.args and c.argtys:
        n = st.led.get(("fmt", "elems"))
        shown(eng, st, c.args[0], c.argtys[0])
        if st.led.get(("fmt", "elems")) != n:
            st.led[("fmt", "anew")] = (1,)
    return Opq("fmt")


@model("core::fmt::builders::DebugList::<'a, 'b>::entries", "core::fmt::builders::DebugSet::<'a, 'b>::entries")
def m_entries(eng, st, c):
    return DECLINE


@model("core::fmt::builders::DebugList::<'a, 'b>::entry", "core::fmt::builders::DebugSet::<'a, 'b>::entry")
def m_entry(eng, st, c):
    v = c.args[1]
    o = st.mem.get(v.obj) if isinstance(v, Ptr) else None
    if not isinstance(o, Cell):
        raise Undec("formatted entry %s %s" % (v, o))
    ty = o.ty if not v.path else eng.cell_ty(o.ty, v.path)
    env = eng.env(st)
    r = eng.tys.memo(("dbg", ty, env), lambda: eng.s.q(op="method", env=env, trait="core::fmt::Debug", name="fmt", args=[ty]))
    if r.get("inst") is not None:
        b = eng.s.body(r["inst"])
        if b and eng.s.insts[r["inst"]]["local"]:
            fr = st.frames[-1]
            t = fr.body["blocks"][fr.bb][1]
            eng.store(st, eng.place(st, fr, t[3]), c.args[0])
            k = ("X", "fmt", 0)
            st.mem[k] = Cell("stack", eng.tys.pointee(b["locals"][2]), Opq("fmt"), True)
            raise eng.models.vecs.Redirect(r["inst"], b, [v._replace(meta=None), Ptr(k, (), None, None, None)], (None, t[4]))
    shown(eng, st, v._replace(meta=None), eng.tys.mk(["ref", ty]))
    eng.may_unwind(st)
    return c.args[0]


@prefix("core::fmt::Formatter::", "core::fmt::builders::", "core::fmt::rt::", "core::fmt::Arguments::", "core::fmt::Write::",
        "alloc::fmt::", "std::io::stdio::", "core::fmt::write")
def m_fmtany(eng, st, c):
    x = eng.tys.k(c.dty)
    if x["k"] == "adt" and x["path"] == "core::result::Result":
        eng.may_unwind(st)
        return result_opq(eng, st)
    if x["k"] == "tuple":
        return UNIT
    if eng.tys.kind(c.dty) == "ref":
        return c.args[0] if c.args else Opq("fmt")
    return Opq("fmt")


def unlt(eng, ty):
    import re
    return re.sub(r"'\w+(, )?|<>", "", eng.tys.k(ty)["s"])


@model("core::convert::From::from", "core::convert::Into::into", "core::default::Default::default",
       "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::borrow::ToOwned::to_owned")
def m_conv(eng, st, c):
    if c.info is not None:
        return DECLINE
    v = c.args[0] if c.args else None
    if isinstance(v, VT):
        return VT(v.rid, v.tau)
    if c.name in ("into", "from") and len(c.gargs) == 2 and (c.gargs[0] == c.gargs[1] or unlt(eng, c.gargs[0]) == unlt(eng, c.gargs[1])):
        return v        # the identity
    if c.name == "into" and isinstance(v, (Tok, Opq)):
        return eng.world.fresh(eng, st, c.dty, "converted")
    raise Undec("conversion " + c.path)


@model("<T as core::convert::Into<U>>::into", "core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
       "core::ops::function::Fn::call")
def m_callfn(eng, st, c):
    if c.info is not None and c.info["kind"] not in ("fnptr_shim",):
        if c.info["kind"] == "closure_once" or c.info.get("closure"):
            return DECLINE
        if c.name == "into":
            return DECLINE
    f = c.args[0]
    if isinstance(f, Ptr):
        t = pt(eng, c)
        f = deref(eng, st, f, t)
    a = c.args[1] if len(c.args) > 1 else UNIT
    args = list(a.fields) if isinstance(a, Agg) else [a]
    at = eng.tys.k(c.argtys[1])["ts"] if len(c.argtys) > 1 and eng.tys.kind(c.argtys[1]) == "tuple" else None
    if isinstance(f, (Fn, FnP, FnTok)):
        return Tail("value", f, args, at, c.dty)
    if c.info is not None:
        return DECLINE
    if isinstance(f, (Opq, Tok)):
        # an unknown user function: takes what it is given, may panic
        for x in args:
            give(eng, st, x)
        eng.may_unwind(st)
        for x in args:
            # a function that converts function tables gives one for the same type
            if isinstance(x, VT) and eng.world.is_table(c.dty):
                return x
        return eng.world.fresh(eng, st, c.dty, "result of a closure")
    raise Undec("call of a value")


def give(eng, st, v):
    """ownership of a value goes to user code"""
    if isinstance(v, Tok):
        eng.add_drop(st, v.rid, v.off, st.n(v.off + st.size(v.term)), "handed over")
    elif isinstance(v, Agg):
        for x in v.fields:
            give(eng, st, x)
    elif isinstance(v, VecV):
        raise Undec("vector handed to user code")
    elif isinstance(v, Ptr) and v.obj is not None:
        o = st.mem.get(v.obj)
        if o is not None and o.kind == "heap":
            raise Undec("storage handed to user code")


# ---------------------------------------------------------------- sizes and types
@model("core::mem::size_of", "core::intrinsics::size_of")
def m_size_of(eng, st, c):
    return eng.tys.size(st, c.gargs[0])


@model("core::mem::align_of", "core::intrinsics::align_of", "core::intrinsics::min_align_of", "core::mem::min_align_of")
def m_align_of(eng, st, c):
    return eng.tys.align(st, c.gargs[0])


@model("core::mem::size_of_val", "core::intrinsics::size_of_val")
def m_size_of_val(eng, st, c):
    t = c.gargs[0]
    if eng.tys.kind(t) == "slice":
        v, n = slice_of(c.args[0])
        return st.n(n * eng.tys.size(st, eng.tys.k(t)["t"]))
    return eng.tys.size(st, t)


@model("core::mem::align_of_val", "core::intrinsics::align_of_val", "core::intrinsics::min_align_of_val", "core::mem::min_align_of_val")
def m_align_of_val(eng, st, c):
    t = c.gargs[0]
    if eng.tys.kind(t) == "slice":
        t = eng.tys.k(t)["t"]
    return eng.tys.align(st, t)


@model("core::alloc::layout::Layout::new", "core::alloc::layout::Layout::for_value")
def m_layout(eng, st, c):
    t = c.gargs[0]
    if eng.tys.kind(t) == "slice":
        v, n = slice_of(c.args[0])
        t = eng.tys.k(t)["t"]
        return layout(st, n * eng.tys.size(st, t), eng.tys.align(st, t))
    return layout(st, eng.tys.size(st, t), eng.tys.align(st, t))


def layout(st, size, align):
    return Agg("adt", 0, (st.n(size), st.n(align)))


@model("core::alloc::layout::Layout::array")
def m_layout_array(eng, st, c):
    sz = num(c.args[0]) * eng.tys.size(st, c.gargs[0])
    if not st.must(("ge", IMAX - sz)):
        return Agg("adt", 1, (Opq("layout error"),))
    return Agg("adt", 0, (layout(st, sz, eng.tys.align(st, c.gargs[0])),))


@model("core::alloc::layout::Layout::from_size_align")
def m_layout_checked(eng, st, c):
    sz, al = num(c.args[0]), num(c.args[1])
    if al.const() is not None and (al.const() <= 0 or al.const() & (al.const() - 1)):
        return Agg("adt", 1, (Opq("layout error"),))
    if not st.must(("ge", IMAX - sz)):
        return Agg("adt", 1, (Opq("layout error"),))
    return Agg("adt", 0, (layout(st, sz, al),))


@model("core::alloc::layout::Layout::from_size_align_unchecked")
def m_layout_unchecked(eng, st, c):
    return layout(st, num(c.args[0]), num(c.args[1]))


@model("core::alloc::layout::Layout::size")
def m_layout_size(eng, st, c):
    return deref(eng, st, c.args[0], pt(eng, c)).fields[0] if isinstance(c.args[0], Ptr) else c.args[0].fields[0]


@model("core::alloc::layout::Layout::align")
def m_layout_align(eng, st, c):
    return deref(eng, st, c.args[0], pt(eng, c)).fields[1] if isinstance(c.args[0], Ptr) else c.args[0].fields[1]


@model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def m_alloc(eng, st, c):
    sz, al = c.args[0].fields
    return Ptr(new_buf(eng, st, sz, al, [raw(ZERO, sz)]), (), ZERO, None, None)


def freed_start(eng, st, v):
    if not isinstance(v, Ptr) or v.obj is None:
        raise Undec("free of an unknown pointer")
    if v.off is not None and st.decide(("eq", v.off)) is not True:
        eng.need(st, ("eq", v.off), "free", "a pointer into the middle of an allocation is freed")


@model("alloc::alloc::dealloc")
def m_dealloc(eng, st, c):
    freed_start(eng, st, c.args[0])
    sz, al = c.args[1].fields
    eng.free(st, c.args[0].obj, sz, al, "freed")
    return UNIT


@model("alloc::alloc::realloc")
def m_realloc(eng, st, c):
    v = c.args[0]
    freed_start(eng, st, v)
    sz, al = c.args[1].fields
    new = num(c.args[2])
    o = eng.obj(st, v.obj)
    if not isinstance(o, Buf):
        raise Undec("realloc of a cell")
    eng.free(st, v.obj, sz, al, "resized")
    if st.must(("ge", new - o.size)):
        segs = list(o.segs) + [raw(o.size, new)]
    else:
        pre, mid, post = st.cut(o.segs, ZERO, new)
        segs = list(mid)
    return Ptr(new_buf(eng, st, new, o.align, segs), (), ZERO, None, None)


@model("alloc::alloc::handle_alloc_error")
def m_alloc_error(eng, st, c):
    raise Dead()


@model("core::mem::needs_drop", "core::intrinsics::needs_drop")
def m_needs_drop(eng, st, c):
    return ("c", eng.tys.has_drop(c.gargs[0]))


@model("core::any::Any::type_id", "<T as core::any::Any>::type_id")
def m_any_typeid(eng, st, c):
    t = pt(eng, c)
    if eng.tys.kind(t) in ("dyn", "alias"):
        raise Undec("dynamic type")
    return TId(eng.tys.register(t))


@model("core::any::TypeId::of", "core::intrinsics::type_id")
def m_typeid(eng, st, c):
    return TId(eng.tys.register(c.gargs[0]))


@model("<core::any::TypeId as core::cmp::PartialEq>::eq")
def m_typeid_eq(eng, st, c):
    a, b = deref(eng, st, c.args[0], pt(eng, c)), deref(eng, st, c.args[1], pt(eng, c, 1))
    if isinstance(a, TId) and isinstance(b, TId):
        return ("tid", a.term, b.term)
    return st.freshbool()


@model("<core::any::TypeId as core::clone::Clone>::clone")
def m_typeid_clone(eng, st, c):
    return deref(eng, st, c.args[0], pt(eng, c))


@model("core::any::type_name", "core::any::type_name_of_val")
def m_type_name(eng, st, c):
    return Ptr(None, (), ZERO, st.fresh("n"), None)


# ---------------------------------------------------------------- mem and ptr
def ident(eng, st, c):
    return c.args[0]


for x in ("core::mem::manually_drop::ManuallyDrop::<T>::new", "core::mem::manually_drop::ManuallyDrop::<T>::into_inner",
          "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref",
          "<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut",
          "core::mem::maybe_uninit::MaybeUninit::<T>::new", "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init",
          "core::mem::maybe_uninit::MaybeUninit::<T>::as_ptr", "core::mem::maybe_uninit::MaybeUninit::<T>::as_mut_ptr",
          "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_ref", "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_mut",
          "alloc::boxed::Box::<T>::from_raw", "alloc::boxed::Box::<T>::into_raw", "alloc::boxed::Box::<T, A>::from_raw",
          "alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T, A>::as_ptr",
          "alloc::boxed::Box::<T, A>::as_mut_ptr", "alloc::boxed::Box::<T, A>::into_pin",
          "core::ptr::non_null::NonNull::<T>::new_unchecked", "core::ptr::non_null::NonNull::<T>::as_ptr",
          "core::ptr::non_null::NonNull::<T>::as_ref", "core::ptr::non_null::NonNull::<T>::as_mut",
          "core::hint::black_box", "core::ops::function::identity", "core::convert::identity"):
    M[x] = ident


@model("core::ptr::non_null::NonNull::<T>::as_ref", "core::ptr::non_null::NonNull::<T>::as_mut",
       "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut",
       "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow")
def m_load1(eng, st, c):
    return deref(eng, st, c.args[0], pt(eng, c))


@model("core::mem::maybe_uninit::MaybeUninit::<T>::uninit")
def m_uninit(eng, st, c):
    return UNINIT


@model("core::mem::maybe_uninit::MaybeUninit::<T>::zeroed")
def m_zeroed(eng, st, c):
    if eng.tys.is_bytes(c.dty):
        sz = eng.tys.size(st, c.dty)
        return Byt(sz, (Seg(ZERO, sz, ("plain",)),))
    return UNINIT


@model("core::mem::maybe_uninit::MaybeUninit::<T>::write")
def m_mu_write(eng, st, c):
    put(eng, st, c.args[0], pt(eng, c), c.args[1])
    return c.args[0]


@model("core::mem::manually_drop::ManuallyDrop::<T>::take", "core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read",
       "core::ptr::mut_ptr::<impl *mut T>::read", "core::intrinsics::read_via_copy", "core::ptr::read_unaligned",
       "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_read", "core::ptr::read_volatile")
def m_read(eng, st, c):
    v = deref(eng, st, c.args[0], pt(eng, c))
    if v is UNINIT and not eng.tys.is_bytes(pt(eng, c)) and not eng.tys.transparent(pt(eng, c)):
        raise Undec("read of an uninitialised value")
    return v


@model("core::mem::transmute_copy")
def m_transmute_copy(eng, st, c):
    v = c.args[0]
    if not isinstance(v, Ptr):
        raise Undec("reference expected")
    eng.need(st, ("ge", eng.tys.size(st, pt(eng, c)) - eng.tys.size(st, c.dty)), "bounds", "a value is read as a larger one")
    return eng.load(st, eng.at(st, v, c.dty))


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write", "core::ptr::write_unaligned", "core::intrinsics::write_via_move",
       "core::ptr::write_volatile")
def m_write(eng, st, c):
    put(eng, st, c.args[0], pt(eng, c), c.args[1])
    return UNIT


@model("core::mem::forget")
def m_forget(eng, st, c):
    return UNIT


@model("core::mem::replace", "core::ptr::replace", "core::ptr::mut_ptr::<impl *mut T>::replace")
def m_replace(eng, st, c):
    v = deref(eng, st, c.args[0], pt(eng, c))
    put(eng, st, c.args[0], pt(eng, c), c.args[1])
    return v


@model("core::mem::swap", "core::ptr::swap")
def m_swap(eng, st, c):
    t = pt(eng, c)
    a, b = deref(eng, st, c.args[0], t), deref(eng, st, c.args[1], t)
    put(eng, st, c.args[0], t, b)
    put(eng, st, c.args[1], t, a)
    return UNIT


@model("core::ptr::copy_nonoverlapping", "core::intrinsics::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy",
       "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping", "core::ptr::const_ptr::<impl *const T>::copy_to",
       "core::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping", "core::ptr::mut_ptr::<impl *mut T>::copy_to")
def m_copy(eng, st, c):
    return copy_n(eng, st, c, c.args[0], c.args[1], c.args[2], pt(eng, c))


@model("core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "core::ptr::mut_ptr::<impl *mut T>::copy_from")
def m_copy_from(eng, st, c):
    return copy_n(eng, st, c, c.args[1], c.args[0], c.args[2], pt(eng, c))


def copy_n(eng, st, c, src, dst, n, t):
    n = num(n) * eng.tys.size(st, t)
    if st.decide(("eq", n)) is True:
        return UNIT
    if not isinstance(src, Ptr) or not isinstance(dst, Ptr) or src.obj is None or dst.obj is None:
        raise Undec("copy of an unknown pointer")
    eng.copy_bytes(st, eng.at(st, src, t), eng.at(st, dst, t), st.n(n))
    return UNIT


@model("core::ptr::write_bytes", "core::intrinsics::write_bytes", "core::ptr::mut_ptr::<impl *mut T>::write_bytes")
def m_write_bytes(eng, st, c):
    t = pt(eng, c)
    n = st.n(num(c.args[2]) * eng.tys.size(st, t))
    eng.write(st, eng.at(st, c.args[0], t), (Seg(ZERO, n, ("plain",)),), n)
    return UNIT


@model("core::ptr::swap_nonoverlapping")
def m_swap_no(eng, st, c):
    t = pt(eng, c)
    return swap_runs(eng, st, c.args[0], c.args[1], num(c.args[2]) * eng.tys.size(st, t))


def swap_runs(eng, st, a, b, n):
    n = st.n(n)
    if st.decide(("eq", n)) is True:
        return UNIT
    la, lb = Loc(a.obj, a.path, a.off, None), Loc(b.obj, b.path, b.off, None)
    sa = grab(eng, st, la, n)
    sb = grab(eng, st, lb, n)
    eng.write(st, la, sb, n)
    eng.write(st, lb, sa, n)
    return UNIT


def grab(eng, st, loc, n):
    size, segs, _ = eng.storage(st, loc)
    off = loc.off or ZERO
    eng.inside(st, off, n, size, "read")
    pre, mid, post = st.cut(segs, off, off + n)
    if not st.covered(mid, off, off + n):
        raise Undec("bytes outside known storage")
    return st.shift(mid, -off)


@model("core::ptr::drop_in_place", "core::mem::manually_drop::ManuallyDrop::<T>::drop",
       "core::mem::maybe_uninit::MaybeUninit::<T>::assume_init_drop", "core::ptr::mut_ptr::<impl *mut T>::drop_in_place")
def m_drop_in_place(eng, st, c):
    t = pt(eng, c)
    while eng.tys.transparent(t):
        t = eng.tys.inner(t)
    if not eng.tys.has_drop(t):
        return UNIT
    g = eng.glue(t, eng.env(st))
    if g is not None:
        return Tail("inst", g[0], [c.args[0]])
    r = eng.drop_value(st, eng.at(st, c.args[0], t), t)
    if r is not None:
        raise Undec("nested drop")
    return UNIT


@model("core::mem::drop")
def m_drop(eng, st, c):
    return DECLINE


@model("core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add",
       "core::ptr::const_ptr::<impl *const T>::offset", "core::ptr::mut_ptr::<impl *mut T>::offset",
       "core::ptr::const_ptr::<impl *const T>::wrapping_add", "core::ptr::mut_ptr::<impl *mut T>::wrapping_add",
       "core::ptr::non_null::NonNull::<T>::add", "core::intrinsics::offset", "core::intrinsics::arith_offset")
def m_add(eng, st, c):
    v, n = c.args[0], num(c.args[1])
    if not isinstance(v, Ptr):
        raise Undec("pointer expected")
    d = st.n(n * eng.tys.size(st, pt(eng, c)))
    if v.obj is None:
        if st.decide(("eq", d)) is True:
            return v
        raise Undec("offset from an unknown pointer")
    return v._replace(off=st.n((v.off or ZERO) + d), meta=None)


@model("core::ptr::const_ptr::<impl *const T>::sub", "core::ptr::mut_ptr::<impl *mut T>::sub")
def m_psub(eng, st, c):
    v, n = c.args[0], num(c.args[1])
    if not isinstance(v, Ptr) or v.obj is None:
        raise Undec("pointer expected")
    return v._replace(off=st.n((v.off or ZERO) - n * eng.tys.size(st, pt(eng, c))), meta=None)


@model("core::ptr::const_ptr::<impl *const T>::byte_add", "core::ptr::mut_ptr::<impl *mut T>::byte_add")
def m_byte_add(eng, st, c):
    v, n = c.args[0], num(c.args[1])
    if not isinstance(v, Ptr) or v.obj is None:
        raise Undec("pointer expected")
    return v._replace(off=st.n((v.off or ZERO) + n))


@model("core::ptr::const_ptr::<impl *const T>::cast", "core::ptr::mut_ptr::<impl *mut T>::cast",
       "core::ptr::non_null::NonNull::<T>::cast", "core::ptr::const_ptr::<impl *const T>::cast_mut",
       "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::from_ref", "core::ptr::from_mut")
def m_cast(eng, st, c):
    v = c.args[0]
    if isinstance(v, Ptr) and eng.tys.kind(eng.tys.pointee(c.dty)) not in ("slice", "dyn"):
        return v._replace(meta=None)
    return v


@model("core::ptr::null", "core::ptr::null_mut", "core::ptr::dangling", "core::ptr::dangling_mut",
       "core::ptr::non_null::NonNull::<T>::dangling")
def m_null(eng, st, c):
    return Ptr(None, (), ZERO, None, None)


@model("core::ptr::const_ptr::<impl *const T>::is_null", "core::ptr::mut_ptr::<impl *mut T>::is_null")
def m_is_null(eng, st, c):
    return ("c", False)


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut", "core::ptr::slice_from_raw_parts",
       "core::ptr::slice_from_raw_parts_mut")
def m_from_raw(eng, st, c):
    v, n = c.args[0], num(c.args[1])
    if not isinstance(v, Ptr):
        raise Undec("pointer expected")
    t = eng.tys.k(eng.tys.pointee(c.dty))["t"]
    n = st.n(n)
    if c.name.startswith("from_raw"):
        view_check(eng, st, v, t, n)
    return v._replace(meta=n)


def view_check(eng, st, v, t, n):
    """a slice of n values of type t at v: in bounds, of that type, initialised"""
    if v.obj is None:
        if st.decide(("eq", n)) is True:
            return
        raise Undec("slice at an unknown place")
    b = st.n(n * eng.tys.size(st, t))
    size, segs, _ = eng.storage(st, Loc(v.obj, v.path, v.off, t))
    eng.inside(st, v.off or ZERO, b, size, "a slice reaches")
    if eng.tys.is_bytes(t):
        return
    if eng.tys.generic(t):
        eng.run_segs(st, v, t, n, "viewed")


# ---------------------------------------------------------------- boxes
@model("alloc::boxed::Box::<T>::new", "alloc::boxed::convert::<impl core::convert::From<T> for alloc::boxed::Box<T>>::from")
def m_box_new(eng, st, c):
    t = eng.tys.k(c.dty)["args"][0]
    o = eng.heap(st, Cell("heap", t, c.args[0], True))
    return Ptr(o, (), None, None, None)


@model("alloc::boxed::Box::<T, A>::into_inner")
def m_box_into_inner(eng, st, c):
    t = eng.tys.k(c.argtys[0])["args"][0]
    v = deref(eng, st, c.args[0], t)
    if isinstance(v, VT):
        st.mem[c.args[0].obj] = st.mem[c.args[0].obj]._replace(alive=False)
        return v
    eng.free_box(st, c.args[0], eng.tys.size(st, t), eng.tys.align(st, t))
    return v


@model("<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop")
def m_box_drop(eng, st, c):
    """frees the memory only; the contents were moved out or dropped before"""
    t = pt(eng, c)
    v = deref(eng, st, c.args[0], t)
    e = eng.tys.k(t)["args"][0]
    if not isinstance(v, Ptr):
        raise Undec("box expected")
    if eng.tys.kind(e) == "slice":
        v, n = slice_of(v)
        if st.must(("eq", n)):
            return UNIT
        eng.free_box(st, v, n * eng.tys.size(st, eng.tys.k(e)["t"]), eng.tys.align(st, eng.tys.k(e)["t"]))
        return UNIT
    o = st.mem.get(v.obj)
    if isinstance(o, Cell) and isinstance(o.val, (VT, Opq)):
        if not o.alive:
            eng.event(st, "free", "a function table is freed twice")
        st.mem[v.obj] = o._replace(alive=False)
        return UNIT
    eng.free_box(st, v, eng.tys.size(st, e), eng.tys.align(st, e))
    return UNIT


@model("<alloc::boxed::Box<[T]> as core::default::Default>::default")
def m_box_default(eng, st, c):
    return Ptr(None, (), ZERO, ZERO, None)


@model("alloc::boxed::Box::<[T]>::new_uninit_slice", "alloc::boxed::Box::<[T]>::new_zeroed_slice")
def m_box_uninit_slice(eng, st, c):
    n = num(c.args[0])
    e = eng.tys.k(eng.tys.k(c.dty)["args"][0])["t"]
    sz = st.n(n * eng.tys.size(st, e))
    if st.must(("eq", sz)):
        return Ptr(None, (), ZERO, n, None)
    if not st.must(("ge", IMAX - sz)):
        panic(st, "capacity overflow")
    b = new_buf(eng, st, sz, eng.tys.align(st, e), [raw(ZERO, sz)])
    return Ptr(b, (), ZERO, n, None)


# ---------------------------------------------------------------- numbers
@model("core::num::<impl usize>::checked_mul", "core::num::<impl usize>::checked_add", "core::num::<impl usize>::checked_sub")
def m_checked(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    if c.name == "checked_sub":
        return some(st.n(a - b)) if st.must(("ge", a - b)) else NONE
    r = a * b if c.name == "checked_mul" else a + b
    return some(st.n(r)) if st.must(("ge", UMAX - r)) else NONE


@model("core::num::<impl usize>::saturating_mul", "core::num::<impl usize>::saturating_add", "core::num::<impl usize>::saturating_sub")
def m_saturating(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    if c.name == "saturating_sub":
        return st.n(a - b) if st.must(("ge", a - b)) else ZERO
    r = a * b if c.name == "saturating_mul" else a + b
    return st.n(r) if st.must(("ge", UMAX - r)) else UMAX


@model("core::num::<impl usize>::wrapping_mul", "core::num::<impl usize>::wrapping_add", "core::num::<impl usize>::wrapping_sub",
       "core::num::<impl usize>::unchecked_mul", "core::num::<impl usize>::unchecked_add", "core::num::<impl usize>::unchecked_sub")
def m_wrapping(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    return {"mul": eng.mul, "add": eng.add, "sub": eng.sub}[c.name.split("_")[1]](st, a, b)


@model("core::num::<impl usize>::overflowing_mul", "core::num::<impl usize>::overflowing_add", "core::num::<impl usize>::overflowing_sub")
def m_overflowing(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    o = c.name.split("_")[1]
    r = {"mul": a * b, "add": a + b, "sub": a - b}[o]
    ok = st.must(("ge", r) if o == "sub" else ("ge", UMAX - r))
    v = {"mul": eng.mul, "add": eng.add, "sub": eng.sub}[o](st, a, b)
    return Agg("tuple", 0, (v, ("c", not ok)))


@model("core::cmp::impls::<impl core::cmp::Ord for usize>::max", "core::cmp::Ord::max", "core::cmp::max", "core::intrinsics::integer_max")
def m_max(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    return b if st.must(("ge", b - a)) else a


@model("core::cmp::impls::<impl core::cmp::Ord for usize>::min", "core::cmp::Ord::min", "core::cmp::min", "core::intrinsics::integer_min")
def m_min(eng, st, c):
    a, b = num(c.args[0]), num(c.args[1])
    return a if st.must(("ge", b - a)) else b


@model("core::num::<impl usize>::is_power_of_two")
def m_pow2(eng, st, c):
    a = num(c.args[0])
    s = a.sym()
    if s and s.startswith("A:"):
        return TRUE
    k = a.const()
    if k is not None:
        return ("c", k > 0 and k & (k - 1) == 0)
    st.fuzzy = eng.vague = True
    return st.freshbool()


@model("core::intrinsics::ctlz", "core::intrinsics::ctlz_nonzero", "core::intrinsics::cttz", "core::intrinsics::cttz_nonzero",
       "core::intrinsics::ctpop", "core::intrinsics::bswap", "core::intrinsics::bitreverse")
def m_bits(eng, st, c):
    a = num(c.args[0])
    w = 8 * eng.tys.conc_size(c.argtys[0])[0]
    k = a.const()
    if k is None:
        return eng.lost(st, "x", lim=w if c.name[0] == "c" else 2 ** w - 1)
    b = bin(k)[2:].rjust(w, "0")
    if c.name.startswith("ctlz"):
        return p(w - len(b.lstrip("0")))
    if c.name.startswith("cttz"):
        return p(w - len(b.rstrip("0")))
    if c.name == "ctpop":
        return p(b.count("1"))
    if c.name == "bitreverse":
        return p(int(b[::-1], 2))
    return p(int.from_bytes(k.to_bytes(w // 8, "big"), "little"))


@model("core::intrinsics::rotate_left", "core::intrinsics::rotate_right")
def m_rotbits(eng, st, c):
    a, k = num(c.args[0]).const(), num(c.args[1]).const()
    w = 8 * eng.tys.conc_size(c.argtys[0])[0]
    if a is None or k is None:
        return eng.lost(st, "x", lim=2 ** w - 1)
    k %= w
    if c.name == "rotate_right":
        k = (w - k) % w
    return p(((a << k) | (a >> (w - k))) & (2 ** w - 1))


@model("core::intrinsics::exact_div")
def m_exact_div(eng, st, c):
    return eng.div(st, num(c.args[0]), num(c.args[1]))[0]


# ---------------------------------------------------------------- panics
@prefix("core::panicking::", "std::panicking::", "core::option::expect_failed", "core::option::unwrap_failed",
        "core::result::unwrap_failed", "core::slice::index::slice_", "std::rt::begin_panic", "alloc::raw_vec::capacity_overflow",
        "alloc::alloc::handle_alloc_error", "core::slice::copy_from_slice_impl::len_mismatch_fail")
def m_panic(eng, st, c):
    panic(st, c.name)


@prefix("core::intrinsics::assume", "core::hint::assert_unchecked", "core::ub_checks::", "core::intrinsics::cold_path",
        "core::hint::cold_path")
def m_nop(eng, st, c):
    if eng.tys.name(c.dty) == "bool":
        return FALSE
    return UNIT


@model("core::intrinsics::saturating_add")
def m_sat_add(eng, st, c):
    a, b = c.args
    if st.must(("ge", UMAX - a - b)):
        return st.n(a + b)
    return UMAX


@model("core::intrinsics::saturating_sub")
def m_sat_sub(eng, st, c):
    a, b = c.args
    if st.must(("ge", a - b)):
        return st.n(a - b)
    return ZERO


@model("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::likely", "core::hint::unlikely", "core::intrinsics::black_box")
def m_ident(eng, st, c):
    return c.args[0]


@model("core::intrinsics::abort", "std::process::abort", "core::hint::unreachable_unchecked", "core::intrinsics::unreachable")
def m_abort(eng, st, c):
    raise Dead()


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discr(eng, st, c):
    t = pt(eng, c)
    return eng.discr(st, deref(eng, st, c.args[0], t), t)


@model("core::intrinsics::ptr_metadata", "core::ptr::metadata")
def m_meta(eng, st, c):
    if isinstance(c.args[0], Ptr) and isinstance(c.args[0].meta, P):
        return c.args[0].meta
    return UNIT


@model("std::thread::panicking", "std::panicking::panicking")
def m_panicking(eng, st, c):
    return ("c", st.unw)


def vec_clone(eng, st, v):
    import vecs
    return vecs.vec_clone(eng, st, v)


def m_vec_clone_from(eng, st, c):
    import vecs
    return vecs.clone_from(eng, st, c)


import vecs  # noqa: E402  (registers its models)
