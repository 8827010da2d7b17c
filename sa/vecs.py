"""Models of Vec, slices and their iterators."""
from dom import *
from poly import P, p, ZERO, ONE, div_exact
from eng import Unw, Loc, iscond, neg
import models as m
from models import model, unres, prefix, deref, put, pt, num, slice_of, panic, vec_at, new_buf, raw, some, NONE, DECLINE, Tail, M


def esz(eng, st, v):
    return eng.tys.size(st, v.ety)


def vec_new(eng, st, cap, ety):
    """an empty vector with room for cap elements"""
    sz = eng.tys.size(st, ety)
    b = st.n(cap * sz)
    if st.must(("eq", b)):
        return VecV(None, None, ZERO, cap if sz.const() == 0 else ZERO, ety)
    if not st.must(("ge", IMAX - b)):
        panic(st, "capacity overflow")
    o = new_buf(eng, st, b, eng.tys.align(st, ety), [raw(ZERO, b)])
    return VecV(o, None, ZERO, st.n(cap), ety)


@model("alloc::vec::Vec::<T>::new", "<alloc::vec::Vec<T> as core::default::Default>::default", "alloc::vec::Vec::<T, A>::new_in")
def m_new(eng, st, c):
    return VecV(None, None, ZERO, ZERO, eng.tys.k(c.dty)["args"][0])


@model("alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::with_capacity_in")
def m_with_capacity(eng, st, c):
    return vec_new(eng, st, num(c.args[0]), eng.tys.k(c.dty)["args"][0])


@model("alloc::vec::Vec::<T>::from_raw_parts")
def m_from_raw_parts(eng, st, c):
    ptr, n, cap = c.args
    t = eng.tys.k(c.dty)["args"][0]
    if not isinstance(ptr, Ptr):
        raise Undec("pointer expected")
    n, cap = st.n(num(n)), st.n(num(cap))
    if ptr.obj is None:
        if st.decide(("eq", cap)) is True:
            return VecV(None, None, n, cap, t)
        raise Undec("vector at an unknown place")
    if ptr.path or (ptr.off is not None and st.decide(("eq", ptr.off)) is not True):
        if ptr.off is not None:
            eng.need(st, ("eq", ptr.off), "layout", "a vector is made from the middle of an allocation")
    o = eng.obj(st, ptr.obj)
    if not isinstance(o, Buf):
        raise Undec("vector of a cell")
    if o.kind != "heap":
        eng.event(st, "free", "a vector is made from memory that is not owned")
    sz = eng.tys.size(st, t)
    eng.need(st, ("ge", cap - n), "bounds", "a vector is longer than its capacity")
    eng.need(st, ("ge", o.size - cap * sz), "bounds", "the capacity of a vector is larger than its allocation")
    if not eng.tys.is_bytes(t) and eng.tys.generic(t):
        eng.run_segs(st, Ptr(ptr.obj, (), ZERO, None, None), t, n, "viewed")
    return VecV(ptr.obj, None, n, cap, t)


@model("alloc::vec::Vec::<T, A>::len")
def m_len(eng, st, c):
    return vec_at(eng, st, c.args[0], pt(eng, c)).len


@model("alloc::vec::Vec::<T, A>::is_empty")
def m_is_empty(eng, st, c):
    return ("eq", vec_at(eng, st, c.args[0], pt(eng, c)).len)


@model("alloc::vec::Vec::<T, A>::capacity")
def m_capacity(eng, st, c):
    t = eng.tys.k(pt(eng, c))["args"][0]
    if eng.tys.size(st, t).const() == 0:
        return UMAX
    return vec_at(eng, st, c.args[0], pt(eng, c)).cap


def vptr(v):
    return Ptr(v.obj, (), ZERO, None, None)


@model("alloc::vec::Vec::<T, A>::as_ptr", "alloc::vec::Vec::<T, A>::as_mut_ptr")
def m_as_ptr(eng, st, c):
    return vptr(vec_at(eng, st, c.args[0], pt(eng, c)))


@model("<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut",
       "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow")
def m_vderef(eng, st, c):
    v = vec_at(eng, st, c.args[0], pt(eng, c))
    return vptr(v)._replace(meta=v.len)


@model("alloc::vec::Vec::<T, A>::leak")
def m_leak(eng, st, c):
    v = c.args[0]
    return vptr(v)._replace(meta=v.len)


@model("alloc::vec::Vec::<T, A>::into_boxed_slice")
def m_into_boxed(eng, st, c):
    v = c.args[0]
    if not isinstance(v, VecV):
        raise Undec("vector expected")
    if v.obj is None:
        return Ptr(None, (), ZERO, v.len, None)
    if st.must(("eq", v.len - v.cap)):
        return vptr(v)._replace(meta=v.len)
    if st.must(("eq", v.len)):
        eng.free(st, v.obj, v.cap * esz(eng, st, v), eng.tys.align(st, v.ety), "freed")
        return Ptr(None, (), ZERO, ZERO, None)
    v = realloc(eng, st, v, v.len)
    return vptr(v)._replace(meta=v.len)


def realloc(eng, st, v, cap):
    """moves the elements to an allocation of cap elements"""
    sz = esz(eng, st, v)
    n = st.n(cap * sz)
    if not st.must(("ge", IMAX - n)):
        panic(st, "capacity overflow")
    used = st.n(v.len * sz)
    al = eng.tys.align(st, v.ety)
    if v.obj is None:
        o = new_buf(eng, st, n, al, [raw(ZERO, n)])
        return VecV(o, None, v.len, st.n(cap), v.ety)
    old = eng.obj(st, v.obj)
    # realloc copies the whole old allocation, whatever the length says
    segs = list(old.segs)
    eng.free(st, v.obj, st.n(v.cap * sz), al, "resized")
    lim = st.n(v.cap * sz)
    if st.must(("ge", n - lim)):
        if not st.eq(n, lim):
            segs.append(raw(lim, n))
        new = st.merge(segs)
    else:
        pre, mid, post = st.cut(segs, ZERO, n)
        new = st.merge(mid)
    o = new_buf(eng, st, n, al, new)
    return VecV(o, None, v.len, st.n(cap), v.ety)


def grow(eng, st, v, extra, exact=False):
    """room for extra more elements"""
    extra = st.n(extra)
    if st.must(("ge", v.cap - v.len - extra)):
        return v
    need = st.n(v.len + extra)
    if not st.must(("ge", UMAX - need)):
        panic(st, "capacity overflow")
    sz = esz(eng, st, v)
    if sz.const() == 0:
        raise Undec("zero sized elements")
    if not st.must(("ge", IMAX - need * sz)):
        panic(st, "capacity overflow")
    if exact:
        cap = need
    else:
        cap = st.fresh("c")
        st.fact(cap - need)
        st.fact(IMAX - cap * sz)
        # the standard vector at least doubles
        st.fact(cap - v.cap * 2)
    return realloc(eng, st, v, cap)


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact")
def m_reserve(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    put(eng, st, c.args[0], t, grow(eng, st, v, num(c.args[1]), c.name == "reserve_exact"))
    return UNIT


@model("alloc::vec::Vec::<T, A>::shrink_to_fit", "alloc::vec::Vec::<T, A>::shrink_to")
def m_shrink(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    if v.obj is None or st.must(("eq", v.cap - v.len)):
        return UNIT
    if c.name == "shrink_to":
        raise Undec("shrink_to")
    if st.must(("eq", v.len)):
        eng.free(st, v.obj, v.cap * esz(eng, st, v), eng.tys.align(st, v.ety), "freed")
        put(eng, st, c.args[0], t, VecV(None, None, ZERO, ZERO, v.ety))
        return UNIT
    put(eng, st, c.args[0], t, realloc(eng, st, v, v.len))
    return UNIT


@model("alloc::vec::Vec::<T, A>::set_len")
def m_set_len(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    n = st.n(num(c.args[1]))
    eng.need(st, ("ge", v.cap - n), "bounds", "the length of a vector is set beyond its capacity")
    put(eng, st, c.args[0], t, v._replace(len=n))
    return UNIT


def value_segs(eng, st, x, ty):
    if isinstance(x, (Opq, P)) or iscond(x):
        sz = eng.tys.size(st, ty)
        return sz, (Seg(ZERO, sz, ("plain",) if isinstance(x, P) and x.const() is not None else ("unk",)),)
    return eng.bytes_of(st, x, ty)


@model("alloc::vec::Vec::<T, A>::push")
def m_push(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    sz, segs = value_segs(eng, st, c.args[1], v.ety)
    v = grow(eng, st, v, ONE)
    put(eng, st, c.args[0], t, v)
    eng.write(st, Loc(v.obj, (), st.n(v.len * sz), v.ety), segs, sz)
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + 1)))
    return UNIT


@model("alloc::vec::Vec::<T, A>::pop")
def m_pop(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    if st.must(("eq", v.len)):
        return NONE
    n = st.n(v.len - 1)
    put(eng, st, c.args[0], t, v._replace(len=n))
    return some(eng.load(st, Loc(v.obj, (), st.n(n * esz(eng, st, v)), v.ety)))


def truncate(eng, st, ptr, t, v, n):
    if st.must(("ge", n - v.len)):
        return
    put(eng, st, ptr, t, v._replace(len=n))
    if eng.tys.has_drop(v.ety) and not eng.tys.is_bytes(v.ety):
        if not eng.tys.generic(v.ety):
            raise Undec("drop of elements")
        eng.drop_run(st, Ptr(v.obj, (), st.n(n * esz(eng, st, v)), None, None), v.ety, st.n(v.len - n))
        eng.may_unwind(st)


@model("alloc::vec::Vec::<T, A>::truncate", "alloc::vec::Vec::<T, A>::clear")
def m_truncate(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    truncate(eng, st, c.args[0], t, v, st.n(num(c.args[1])) if c.name == "truncate" else ZERO)
    return UNIT


@model("alloc::vec::Vec::<T, A>::append")
def m_append(eng, st, c):
    t = pt(eng, c)
    b = vec_at(eng, st, c.args[1], t)
    v = vec_at(eng, st, c.args[0], t)
    if b.obj is None or st.must(("eq", b.len)):
        return UNIT
    sz = esz(eng, st, v)
    v = grow(eng, st, v, b.len)
    put(eng, st, c.args[0], t, v)
    n = st.n(b.len * sz)
    eng.copy_bytes(st, Loc(b.obj, (), ZERO, b.ety), Loc(v.obj, (), st.n(v.len * sz), v.ety), n)
    put(eng, st, c.args[1], t, b._replace(len=ZERO))
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + b.len)))
    return UNIT


def clone_segs(eng, st, ptr, t, n, what="cloned"):
    """contents of clones of n elements at ptr, relative to 0"""
    sz = eng.tys.size(st, t)
    total = st.n(n * sz)
    if st.decide(("eq", total)) is True:
        return ()
    if eng.tys.generic(t) and not eng.tys.is_bytes(t):
        runs = eng.run_segs(st, ptr, t, n, what)
        if not all(st.res[r].copy for r, a, b in runs):
            eng.may_unwind(st)
        out, x = [], ZERO
        for rid, a, b in runs:
            r2, o2 = m.clone_range(eng, st, rid, a, b)
            e = st.n(x + b - a)
            out.append(Seg(x, e, ("res", r2, st.n(o2 - x))))
            x = e
        return tuple(out)
    return m.grab(eng, st, Loc(ptr.obj, ptr.path, ptr.off, t), total)


@model("alloc::vec::Vec::<T, A>::extend_from_slice")
def m_extend_slice(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    s, n = slice_of(c.args[1])
    n = st.n(n)
    if st.must(("eq", n)):
        return UNIT
    v = grow(eng, st, v, n)
    put(eng, st, c.args[0], t, v)
    sz = esz(eng, st, v)
    if v.obj is None and sz.const() == 0:
        put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + n)))
        return UNIT
    segs = clone_segs(eng, st, s, v.ety, n)
    eng.write(st, Loc(v.obj, (), st.n(v.len * sz), v.ety), segs, st.n(n * sz))
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + n)))
    return UNIT


def vec_clone(eng, st, v):
    w = vec_new(eng, st, v.len, v.ety)
    if w.obj is None:
        return w
    segs = clone_segs(eng, st, vptr(v), v.ety, v.len)
    eng.write(st, Loc(w.obj, (), ZERO, v.ety), segs, st.n(v.len * esz(eng, st, v)))
    return w._replace(len=v.len)


@model("core::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec",
       "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned", "<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from")
def m_to_vec(eng, st, c):
    s, n = slice_of(c.args[0])
    t = eng.tys.k(c.dty)["args"][0]
    w = vec_new(eng, st, n, t)
    if w.obj is None:
        return w
    segs = clone_segs(eng, st, s, t, n)
    eng.write(st, Loc(w.obj, (), ZERO, t), segs, st.n(n * eng.tys.size(st, t)))
    return w._replace(len=st.n(n))


@model("<alloc::vec::Vec<T, A> as core::clone::Clone>::clone_from")
def clone_from(eng, st, c):
    t = pt(eng, c)
    v, b = vec_at(eng, st, c.args[0], t), vec_at(eng, st, c.args[1], t)
    if eng.tys.has_drop(v.ety) and not eng.tys.is_bytes(v.ety):
        raise Undec("clone_from of a vector of elements")
    v = v._replace(len=ZERO) if st.must(("ge", v.len - b.len)) else v
    v = v._replace(len=ZERO)
    v = grow(eng, st, v, b.len)
    put(eng, st, c.args[0], t, v)
    if st.must(("eq", b.len)):
        return UNIT
    eng.copy_bytes(st, Loc(b.obj, (), ZERO, b.ety), Loc(v.obj, (), ZERO, v.ety), st.n(b.len * esz(eng, st, v)))
    put(eng, st, c.args[0], t, v._replace(len=b.len))
    return UNIT


@model("alloc::vec::Vec::<T, A>::resize_with", "alloc::vec::Vec::<T, A>::resize")
def m_resize_with(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    n = st.n(num(c.args[1]))
    if not eng.tys.is_bytes(v.ety):
        if c.name == "resize" and eng.tys.generic(v.ety):
            return resize(eng, st, c, t, v, n)
        raise Undec("resize_with of elements")
    if st.must(("ge", v.len - n)):
        put(eng, st, c.args[0], t, v._replace(len=n))
        return UNIT
    v = grow(eng, st, v, st.n(n - v.len))
    sz = esz(eng, st, v)
    d = st.n((n - v.len) * sz)
    put(eng, st, c.args[0], t, v)
    eng.write(st, Loc(v.obj, (), st.n(v.len * sz), v.ety), (Seg(ZERO, d, ("plain",)),), d)
    put(eng, st, c.args[0], t, v._replace(len=n))
    return UNIT


def resize(eng, st, c, t, v, n):
    x = c.args[2]
    if not isinstance(x, Tok):
        raise Undec("resize")
    sz = esz(eng, st, v)
    if st.must(("ge", v.len - n)):
        truncate(eng, st, c.args[0], t, v, n)
        eng.drop_tok(st, x)
        return UNIT
    v = grow(eng, st, v, st.n(n - v.len))
    put(eng, st, c.args[0], t, v)
    fill_clones(eng, st, v, st.n(v.len * sz), x, st.n((n - v.len) * sz), sz)
    put(eng, st, c.args[0], t, v._replace(len=n))
    return UNIT


def fill_clones(eng, st, v, off, x, d, sz):
    """d bytes of clones of x at off, the last element being x itself"""
    if not st.res[x.rid].copy:
        eng.may_unwind(st)
    k = st.n(d - sz)
    if not st.eq(k, ZERO):
        r = st.res[x.rid]
        if r.copy:
            raise Undec("repeated copies")
        fam = ("cl", x.rid, m.owner_fn(eng, st))
        if fam in st.res:
            raise Undec("repeated clones")
        st.res[fam] = Res(r.term, k, False, True, "clones made by " + fam[2])
        st.led[(fam, "prov")] = (Seg(ZERO, k, ("rep", x.rid, x.off)),)
        eng.write(st, Loc(v.obj, (), off, v.ety), (Seg(ZERO, k, ("res", fam, ZERO)),), k)
    eng.write(st, Loc(v.obj, (), st.n(off + k), v.ety), (Seg(ZERO, sz, ("res", x.rid, x.off)),), sz)


@model("alloc::vec::from_elem")
def m_from_elem(eng, st, c):
    x, n = c.args[0], num(c.args[1])
    t = eng.tys.k(c.dty)["args"][0]
    w = vec_new(eng, st, n, t)
    sz = eng.tys.size(st, t)
    if w.obj is None:
        m.give(eng, st, x) if isinstance(x, Tok) else None
        if isinstance(x, Tok) and not st.res[x.rid].copy:
            eng.may_unwind(st)
        return w
    if isinstance(x, Tok):
        if st.res[x.rid].copy:
            rid = ("rep", x.rid)
            st.res[rid] = Res(st.res[x.rid].term, st.n(n * sz), True, False, "copies")
            eng.write(st, Loc(w.obj, (), ZERO, t), (Seg(ZERO, st.n(n * sz), ("res", rid, ZERO)),), st.n(n * sz))
        else:
            fill_clones(eng, st, w, ZERO, x, st.n(n * sz), sz)
    elif eng.tys.is_bytes(t) or isinstance(x, (Opq, P)):
        b = st.n(n * sz)
        eng.write(st, Loc(w.obj, (), ZERO, t), (Seg(ZERO, b, ("plain",) if isinstance(x, P) and x.const() is not None else ("unk",)),), b)
    else:
        raise Undec("vec![..]")
    return w._replace(len=st.n(n))


@model("alloc::vec::Vec::<T, A>::insert")
def m_insert(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    i = st.n(num(c.args[1]))
    if not st.must(("ge", v.len - i)):
        panic(st, "insertion index out of range")
    sz, segs = value_segs(eng, st, c.args[2], v.ety)
    v = grow(eng, st, v, ONE)
    put(eng, st, c.args[0], t, v)
    k = st.n((v.len - i) * sz)
    tail = m.grab(eng, st, Loc(v.obj, (), st.n(i * sz), v.ety), k) if not st.eq(k, ZERO) else ()
    eng.write(st, Loc(v.obj, (), st.n(i * sz), v.ety), segs, sz)
    if tail:
        eng.write(st, Loc(v.obj, (), st.n(i * sz + sz), v.ety), tail, k)
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + 1)))
    return UNIT


@model("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def m_remove(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    i = st.n(num(c.args[1]))
    if not st.must(("ge", v.len - i - 1)):
        panic(st, "removal index out of range")
    sz = esz(eng, st, v)
    x = eng.load(st, Loc(v.obj, (), st.n(i * sz), v.ety))
    if c.name == "remove":
        a, k = st.n((i + 1) * sz), st.n((v.len - i - 1) * sz)
    else:
        a, k = st.n((v.len - 1) * sz), sz
        if st.must(("eq", v.len - 1 - i)):
            k = ZERO
    if not st.must(("eq", k)):
        eng.write(st, Loc(v.obj, (), st.n(i * sz), v.ety), m.grab(eng, st, Loc(v.obj, (), a, v.ety), k), k)
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len - 1)))
    return x


@model("alloc::vec::Vec::<T, A>::split_off")
def m_split_off(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    i = st.n(num(c.args[1]))
    if not st.must(("ge", v.len - i)):
        panic(st, "split index out of range")
    k = st.n(v.len - i)
    w = vec_new(eng, st, k, v.ety)
    put(eng, st, c.args[0], t, v._replace(len=i))
    if w.obj is None or st.must(("eq", k)):
        return w
    sz = esz(eng, st, v)
    eng.write(st, Loc(w.obj, (), ZERO, v.ety), m.grab(eng, st, Loc(v.obj, (), st.n(i * sz), v.ety), st.n(k * sz)), st.n(k * sz))
    return w._replace(len=k)


@model("alloc::vec::Vec::<T, A>::extend_from_within")
def m_extend_within(eng, st, c):
    t = pt(eng, c)
    v = vec_at(eng, st, c.args[0], t)
    r = index_of(eng, st, vptr(v), v.len, v.ety, c.args[1], c.argtys[1])
    if r is None:
        panic(st, "range out of bounds")
    n, off = r.meta, r.off or ZERO
    if st.must(("eq", n)):
        return UNIT
    v = grow(eng, st, v, n)
    put(eng, st, c.args[0], t, v)
    sz = esz(eng, st, v)
    segs = clone_segs(eng, st, vptr(v)._replace(off=off), v.ety, n)
    eng.write(st, Loc(v.obj, (), st.n(v.len * sz), v.ety), segs, st.n(n * sz))
    put(eng, st, c.args[0], t, v._replace(len=st.n(v.len + n)))
    return UNIT


@model("alloc::vec::Vec::<T, A>::drain", "alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T, A>::dedup", "alloc::vec::Vec::<T, A>::splice")
def m_vec_undec(eng, st, c):
    raise Undec(c.path)


@prefix("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<")
def m_extend(eng, st, c):
    """extend == extend_desugared over the iterator"""
    t = pt(eng, c)
    ety = eng.tys.k(t)["args"][0]
    it, ity = into_iter(eng, st, c.args[1], c.argtys[1])
    if "Extend<&'a T>" in c.path:
        # Extend<&T>: elements are copied
        v, n = as_slice(eng, st, it)
        if v is None:
            if ity is None:
                return DECLINE
            env = eng.env(st)
            k = eng.tys.memo(("copied", ity, env), lambda: eng.s.q(op="mkty", env=env, ty=["core::iter::adapters::copied::Copied", ity]))
            return desugared(eng, st, c.args[0], ety, Agg("adt", 0, (it,)), k["ty"]) if "ty" in k else DECLINE
        c.args = [c.args[0], v._replace(meta=n)]
        return m_extend_slice(eng, st, c)
    if ity is None:
        return DECLINE
    return desugared(eng, st, c.args[0], ety, it, ity)


def desugared(eng, st, ptr, ety, it, ity):
    r = eng.tys.memo(("desug", ety, ity), lambda: eng.s.q(op="lookup", path="alloc::vec::Vec::extend_desugared"))
    if "d" not in r:
        return DECLINE
    env = eng.env(st)
    i = eng.tys.memo(("desugi", ety, ity, env), lambda: eng.s.q(op="inst", d=r["d"], env=env, sub=[["T", ety], ["A", eng.tys.mk("alloc::alloc::Global")], ["I", ity]]))
    if i.get("inst") is None:
        return DECLINE
    return Tail("inst", i["inst"], [ptr, it])


def as_slice(eng, st, it):
    if isinstance(it, It) and it.kind == "slice":
        base, ety, n = it.a
        f, b = it.pos
        return base._replace(off=st.n((base.off or ZERO) + f * eng.tys.size(st, ety))), st.n(b - f)
    return None, None


def into_iter(eng, st, v, ty):
    """(iterator, its type) or (.., None)"""
    if isinstance(v, It):
        return v, ty
    if isinstance(v, Ptr) and eng.tys.kind(ty) == "ref":
        t = eng.tys.pointee(ty)
        if eng.tys.kind(t) == "slice" and isinstance(v.meta, P):
            e = eng.tys.k(t)["t"]
            return It("slice", (v._replace(meta=None), e, v.meta), (ZERO, v.meta)), None
        if eng.tys.is_vec(t):
            x = vec_at(eng, st, v, t)
            return It("slice", (vptr(x), x.ety, x.len), (ZERO, x.len)), None
    if isinstance(v, Agg):
        return v, ty
    return v, None


# ---------------------------------------------------------------- slices
@model("core::slice::<impl [T]>::len")
def m_slen(eng, st, c):
    return slice_of(c.args[0])[1]


@model("core::slice::<impl [T]>::is_empty")
def m_sempty(eng, st, c):
    return ("eq", slice_of(c.args[0])[1])


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::ptr::const_ptr::<impl *const [T]>::as_ptr",
       "core::ptr::mut_ptr::<impl *mut [T]>::as_mut_ptr")
def m_sptr(eng, st, c):
    v = c.args[0]
    if not isinstance(v, Ptr):
        raise Undec("slice expected")
    return v._replace(meta=None)


def sub(eng, st, v, ety, a, b):
    return v._replace(off=st.n((v.off or ZERO) + a * eng.tys.size(st, ety)), meta=st.n(b - a))


@model("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
       "<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut",
       "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::slice::<impl [T]>::get_unchecked",
       "core::slice::<impl [T]>::get_unchecked_mut", "core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut",
       "core::slice::index::SliceIndex::index", "core::slice::index::SliceIndex::index_mut", "core::slice::index::SliceIndex::get")
def m_index(eng, st, c):
    if c.path.startswith("core::slice::index::SliceIndex"):
        raise Undec("slice index")
    t = pt(eng, c)
    if eng.tys.is_vec(t):
        x = vec_at(eng, st, c.args[0], t)
        v, n, e = vptr(x), x.len, x.ety
    elif eng.tys.kind(t) == "slice":
        v, n = slice_of(c.args[0])
        e = eng.tys.k(t)["t"]
    else:
        return DECLINE
    r = index_of(eng, st, v, n, e, c.args[1], c.argtys[1], c.name.startswith("get_unchecked"))
    if c.name.startswith("get_unchecked"):
        return r
    if c.name.startswith("get"):
        return NONE if r is None else some(r)
    if r is None:
        panic(st, "index out of range")
    return r


RANGE = "core::ops::range::"


def index_of(eng, st, v, n, e, ix, ity, unchecked=False):
    """pointer for an index or range, None if out of range"""
    def ok(cond):
        if unchecked:
            eng.need(st, cond, "bounds", "an unchecked index is out of range")
            return True
        return st.must(cond)
    if isinstance(ix, P):
        if not ok(("ge", n - ix - 1)):
            return None
        return v._replace(off=st.n((v.off or ZERO) + ix * eng.tys.size(st, e)), meta=None)
    path = eng.tys.path(ity) or ""
    if not path.startswith(RANGE) or not isinstance(ix, (Agg, Opq)):
        raise Undec("index type " + eng.tys.name(ity))
    k = path[len(RANGE):]
    f = ix.fields if isinstance(ix, Agg) else ()
    if k == "RangeFull":
        a, b = ZERO, n
    elif k == "Range":
        a, b = f[0], f[1]
    elif k == "RangeTo":
        a, b = ZERO, f[0]
    elif k == "RangeFrom":
        a, b = f[0], n
    elif k in ("RangeInclusive", "RangeToInclusive"):
        if k == "RangeInclusive":
            a, b, ex = f[0], f[1], f[2]
            if iscond(ex) and st.must(ex):
                raise Undec("exhausted range")
        else:
            a, b = ZERO, f[0]
        if not st.must(("ge", UMAX - 1 - b)):
            return None
        b = st.n(b + 1)
    else:
        raise Undec("index type " + k)
    if not ok(("ge", b - a)) or not ok(("ge", n - b)):
        return None
    return sub(eng, st, v, e, a, b)


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at_unchecked",
       "core::slice::<impl [T]>::split_at_mut_unchecked", "core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_at_mut_checked")
def m_split(eng, st, c):
    v, n = slice_of(c.args[0])
    i = num(c.args[1])
    e = eng.tys.k(pt(eng, c))["t"]
    if not st.must(("ge", n - i)):
        if "checked" in c.name and "unchecked" not in c.name:
            return NONE
        if "unchecked" in c.name:
            eng.need(st, ("ge", n - i), "bounds", "unchecked split out of range")
        panic(st, "split out of range")
    r = Agg("tuple", 0, (sub(eng, st, v, e, ZERO, i), sub(eng, st, v, e, i, n)))
    return some(r) if c.name.endswith("_checked") else r


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first(eng, st, c):
    v, n = slice_of(c.args[0])
    e = eng.tys.k(pt(eng, c))["t"]
    if st.must(("eq", n)):
        return NONE
    i = ZERO if c.name.startswith("first") else n - 1
    return some(v._replace(off=st.n((v.off or ZERO) + i * eng.tys.size(st, e)), meta=None))


@model("core::slice::<impl [T]>::swap")
def m_sswap(eng, st, c):
    v, n = slice_of(c.args[0])
    a, b = num(c.args[1]), num(c.args[2])
    e = eng.tys.k(pt(eng, c))["t"]
    if not st.must(("ge", n - a - 1)) or not st.must(("ge", n - b - 1)):
        panic(st, "index out of range")
    sz = eng.tys.size(st, e)
    if st.must(("eq", a - b)):
        return UNIT
    o = v.off or ZERO
    return m.swap_runs(eng, st, v._replace(off=st.n(o + a * sz)), v._replace(off=st.n(o + b * sz)), sz)


@model("core::slice::<impl [T]>::swap_with_slice")
def m_swap_with(eng, st, c):
    v, n = slice_of(c.args[0])
    w, k = slice_of(c.args[1])
    if not st.must(("eq", n - k)):
        panic(st, "slices of different lengths")
    e = eng.tys.k(pt(eng, c))["t"]
    return m.swap_runs(eng, st, v, w, n * eng.tys.size(st, e))


@model("core::slice::<impl [T]>::copy_from_slice")
def m_copy_slice(eng, st, c):
    v, n = slice_of(c.args[0])
    w, k = slice_of(c.args[1])
    if not st.must(("eq", n - k)):
        panic(st, "slices of different lengths")
    e = eng.tys.k(pt(eng, c))["t"]
    b = st.n(n * eng.tys.size(st, e))
    if st.must(("eq", b)):
        return UNIT
    if v.obj is None or w.obj is None:
        raise Undec("copy of an unknown slice")
    if eng.tys.generic(e):
        eng.run_segs(st, w, e, n, "copied")
    eng.copy_bytes(st, Loc(w.obj, w.path, w.off, e), Loc(v.obj, v.path, v.off, e), b)
    return UNIT


@model("core::slice::<impl [T]>::clone_from_slice")
def m_clone_slice(eng, st, c):
    v, n = slice_of(c.args[0])
    w, k = slice_of(c.args[1])
    if not st.must(("eq", n - k)):
        panic(st, "slices of different lengths")
    e = eng.tys.k(pt(eng, c))["t"]
    b = st.n(n * eng.tys.size(st, e))
    if st.must(("eq", b)):
        return UNIT
    segs = clone_segs(eng, st, w, e, n)
    if eng.tys.generic(e):
        for rid, x, y in eng.run_segs(st, v, e, n, "cloned over"):
            eng.add_drop(st, rid, x, y)
    eng.write(st, Loc(v.obj, v.path, v.off, e), segs, b)
    return UNIT


@model("core::slice::<impl [T]>::fill")
def m_fill(eng, st, c):
    v, n = slice_of(c.args[0])
    e = eng.tys.k(pt(eng, c))["t"]
    x = c.args[1]
    sz = eng.tys.size(st, e)
    b = st.n(n * sz)
    if not isinstance(x, Tok) or not eng.tys.generic(e):
        if isinstance(x, P) and eng.tys.is_bytes(e):
            if not st.must(("eq", b)):
                eng.write(st, Loc(v.obj, v.path, v.off, e), (Seg(ZERO, b, ("plain",) if x.const() is not None else ("unk",)),), b)
            return UNIT
        raise Undec("fill")
    if st.must(("eq", n)):
        eng.drop_tok(st, x)
        return UNIT
    if st.res[x.rid].copy:
        rid = ("rep", x.rid)
        st.res[rid] = Res(st.res[x.rid].term, b, True, False, "copies")
        eng.write(st, Loc(v.obj, v.path, v.off, e), (Seg(ZERO, b, ("res", rid, ZERO)),), b)
        return UNIT
    for rid, a, z in eng.run_segs(st, v, e, n, "overwritten"):
        eng.add_drop(st, rid, a, z)
    fill_clones(eng, st, VecV(v.obj, None, n, n, e), v.off or ZERO, x, b, sz) if v.path == () else undec("fill")
    return UNIT


def undec(s):
    raise Undec(s)


@model("core::slice::<impl [T]>::copy_within")
def m_copy_within(eng, st, c):
    v, n = slice_of(c.args[0])
    e = eng.tys.k(pt(eng, c))["t"]
    r = index_of(eng, st, v, n, e, c.args[1], c.argtys[1])
    d = st.n(num(c.args[2]))
    if r is None or not st.must(("ge", n - r.meta - d)):
        panic(st, "range out of bounds")
    b = st.n(r.meta * eng.tys.size(st, e))
    if st.must(("eq", b)):
        return UNIT
    eng.copy_bytes(st, Loc(r.obj, r.path, r.off, e), Loc(v.obj, v.path, st.n((v.off or ZERO) + d * eng.tys.size(st, e)), e), b)
    return UNIT


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::split_first_mut",
       "core::slice::<impl [T]>::split_last_mut")
def m_split_first(eng, st, c):
    v, n = slice_of(c.args[0])
    e = eng.tys.k(pt(eng, c))["t"]
    if not st.must(("ge", n - 1)):
        return NONE
    sz = eng.tys.size(st, e)
    off = v.off or ZERO
    if "first" in c.name:
        x, r = v._replace(meta=None), sub(eng, st, v, e, ONE, n)
    else:
        x, r = v._replace(off=st.n(off + (n - 1) * sz), meta=None), sub(eng, st, v, e, ZERO, st.n(n - 1))
    return some(Agg("tuple", 0, (x, r)))


@model("core::slice::<impl [T]>::sort", "core::slice::<impl [T]>::reverse",
       "core::slice::<impl [T]>::concat", "core::slice::<impl [T]>::windows")
def m_slice_undec(eng, st, c):
    raise Undec(c.path)


@model("core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right")
def m_rotate(eng, st, c):
    v, n = slice_of(c.args[0])
    k = num(c.args[1])
    e = eng.tys.k(pt(eng, c))["t"]
    if not st.must(("ge", n - k)):
        panic(st, "rotation beyond the length")
    if st.must(("eq", n)):
        return UNIT
    sz = eng.tys.size(st, e)
    k = k if c.name == "rotate_left" else st.n(n - k)
    a = m.grab(eng, st, Loc(v.obj, v.path, v.off, e), st.n(n * sz))
    pre, x, y = st.cut(a, ZERO, st.n(k * sz))
    new = st.shift(y, -(k * sz)) + st.shift(x, (n - k) * sz)
    eng.write(st, Loc(v.obj, v.path, v.off, e), new, st.n(n * sz))
    return UNIT


# ---------------------------------------------------------------- iterators
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def m_iter(eng, st, c):
    v, n = slice_of(c.args[0])
    e = eng.tys.k(pt(eng, c))["t"]
    return It("slice", (v._replace(meta=None), e, n), (ZERO, st.n(n)))


@model("<&'a [T] as core::iter::traits::collect::IntoIterator>::into_iter", "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter")
def m_into_iter_s(eng, st, c):
    return m_iter(eng, st, c)


@model("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def m_into_iter_v(eng, st, c):
    x = vec_at(eng, st, c.args[0], pt(eng, c))
    return It("slice", (vptr(x), x.ety, x.len), (ZERO, x.len))


@model("core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks_exact_mut", "core::slice::<impl [T]>::chunks",
       "core::slice::<impl [T]>::chunks_mut")
def m_chunks(eng, st, c):
    v, n = slice_of(c.args[0])
    k = num(c.args[1])
    e = eng.tys.k(pt(eng, c))["t"]
    if st.must(("eq", k)):
        panic(st, "chunk size must be non-zero")
    cnt = eng.div(st, st.n(n), st.n(k))
    if not c.name.startswith("chunks_exact") and cnt[1].t:
        if st.choose(2):
            # the last one is shorter
            st.fact(cnt[1] - 1)
            return It("chunks", (v._replace(meta=None), e, k, (cnt[1], cnt[0])), (ZERO, st.n(cnt[0] + 1)))
        if not st.equate(cnt[1]):
            raise Dead()
        cnt = [st.n(x) for x in cnt]
    return It("chunks", (v._replace(meta=None), e, k, None), (ZERO, cnt[0]))


def item(eng, st, it, i):
    if it.kind == "slice":
        v, e, n = it.a
        return v._replace(off=st.n((v.off or ZERO) + i * eng.tys.size(st, e)), meta=None)
    if it.kind == "chunks":
        v, e, k, r = it.a
        off = st.n((v.off or ZERO) + i * k * eng.tys.size(st, e))
        if r is not None:
            d = st.decide(("eq", r[1] - i))
            if d is None:
                raise Split(("eq", r[1] - i))
            return v._replace(off=off, meta=r[0] if d else k)
        return v._replace(off=off, meta=k)
    raise Undec("iterator")


ITS = ("core::slice::iter::Iter<", "core::slice::iter::IterMut<", "core::slice::iter::ChunksExact<", "core::slice::iter::ChunksExactMut<",
       "core::slice::iter::Chunks<", "core::slice::iter::ChunksMut<")


def the_it(eng, st, c):
    """(pointer, type, iterator) of the receiver"""
    v = c.args[0]
    if isinstance(v, It):
        return None, None, v
    if isinstance(v, Ptr):
        t = eng.tys.pointee(c.argtys[0])
        if t is not None:
            x = deref(eng, st, v, t)
            if isinstance(x, It):
                return v, t, x
    return None, None, None


@prefix("<core::slice::iter::Iter<'a, T> as ", "<core::slice::iter::IterMut<'a, T> as ", "<core::slice::iter::ChunksExact<'a, T> as ",
        "<core::slice::iter::ChunksExactMut<'a, T> as ", "<core::slice::iter::Chunks<'a, T> as ", "<core::slice::iter::ChunksMut<'a, T> as ",
        "<core::slice::iter::Iter<'_, T> as ", "<core::slice::iter::IterMut<'_, T> as ", "<core::slice::iter::ChunksExact<'_, T> as ",
        "<core::slice::iter::ChunksExactMut<'_, T> as ")
def m_iterator(eng, st, c):
    ptr, t, it = the_it(eng, st, c)
    if it is None:
        raise Undec("iterator expected")
    f, b = it.pos
    n = c.name
    if n == "next":
        if not st.must(("ge", b - f - 1)):
            return NONE
        put(eng, st, ptr, t, it._replace(pos=(st.n(f + 1), b)))
        return some(item(eng, st, it, f))
    if n == "next_back":
        if not st.must(("ge", b - f - 1)):
            return NONE
        put(eng, st, ptr, t, it._replace(pos=(f, st.n(b - 1))))
        return some(item(eng, st, it, st.n(b - 1)))
    if n == "nth":
        k = num(c.args[1])
        if not st.must(("ge", b - f - k - 1)):
            put(eng, st, ptr, t, it._replace(pos=(b, b)))
            return NONE
        put(eng, st, ptr, t, it._replace(pos=(st.n(f + k + 1), b)))
        return some(item(eng, st, it, st.n(f + k)))
    if n == "nth_back":
        k = num(c.args[1])
        if not st.must(("ge", b - f - k - 1)):
            put(eng, st, ptr, t, it._replace(pos=(f, f)))
            return NONE
        put(eng, st, ptr, t, it._replace(pos=(f, st.n(b - k - 1))))
        return some(item(eng, st, it, st.n(b - k - 1)))
    if n == "size_hint":
        return Agg("tuple", 0, (st.n(b - f), some(st.n(b - f))))
    if n in ("len", "count", "size"):
        return st.n(b - f)
    if n == "is_empty":
        return ("eq", b - f)
    if n == "__iterator_get_unchecked" or n == "get_unchecked":
        k = num(c.args[1])
        eng.need(st, ("ge", b - f - k - 1), "bounds", "an iterator is advanced past its end")
        return item(eng, st, it, st.n(f + k))
    if n == "clone":
        return it
    if n == "into_iter":
        return it
    if n == "last":
        if st.must(("eq", b - f)):
            return NONE
        return some(item(eng, st, it, st.n(b - 1)))
    if c.trait == "core::iter::traits::iterator::Iterator":
        return provided(eng, st, c)
    raise Undec("iterator method " + n)


def provided(eng, st, c):
    """the default method of the trait, built on next()"""
    env = eng.env(st)
    r = eng.tys.memo(("prov", c.trait, c.name, tuple(c.gargs), env), lambda: eng.s.q(
        op="method", env=env, trait=c.trait, name=c.name, args=c.gargs, provided=True))
    # the method of the trait is called with Self = the iterator type
    if r.get("inst") is None:
        raise Undec("iterator method " + c.name)
    return Tail("inst", r["inst"], c.args)


@model("core::slice::iter::Iter::<'a, T>::as_slice", "core::slice::iter::IterMut::<'a, T>::into_slice")
def m_it_slice(eng, st, c):
    ptr, t, it = the_it(eng, st, c)
    v, n = as_slice(eng, st, it)
    return v._replace(meta=n)


@model("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next")
def m_range_next(eng, st, c):
    t = pt(eng, c)
    v = deref(eng, st, c.args[0], t)
    if not isinstance(v, Agg) or not isinstance(v.fields[0], P) or not isinstance(v.fields[1], P):
        raise Undec("range")
    a, b = v.fields
    if not st.must(("ge", b - a - 1)):
        return NONE
    put(eng, st, c.args[0], t, Agg("adt", 0, (st.n(a + 1), b)))
    return some(a)


@model("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::size_hint")
def m_range_hint(eng, st, c):
    v = deref(eng, st, c.args[0], pt(eng, c))
    a, b = v.fields
    n = st.n(b - a) if st.must(("ge", b - a)) else ZERO
    return Agg("tuple", 0, (n, some(n)))


@prefix("core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::")
def m_range_other(eng, st, c):
    if c.trait == "core::iter::traits::iterator::Iterator":
        return provided(eng, st, c)
    return DECLINE


@unres("core::iter::traits::collect::IntoIterator::into_iter")
def m_user_into_iter(eng, st, c):
    """a user's collection: any sequence of values"""
    if c.info is None and isinstance(c.args[0], It):
        return c.args[0]
    if c.info is not None or not isinstance(c.args[0], (Opq, Tok)):
        return DECLINE
    m.give(eng, st, c.args[0])
    eng.may_unwind(st)
    st.nsym += 1
    return It("items", ("items", st.nsym), None)


def sequence(eng, st, ty):
    """(one object borrowing the first of several elements in a row, their number): copies of it moved along the row
    are a sequence of objects of one element type; None for other kinds of items"""
    v = eng.world.fresh(eng, st, ty, "the items")
    if not isinstance(v, Agg):
        return None
    bs = [(i, x) for i, x in enumerate(v.fields) if isinstance(x, Ptr) and isinstance(st.mem.get(x.obj), Buf)]
    ts = [x.term for x in v.fields if isinstance(x, TId)]
    if owned_part(v):
        raise Dead()
    if len(bs) != 1 or len(ts) != 1:
        return None
    i, x = bs[0]
    o = st.mem[x.obj]
    if o.kind != "ext" or len(o.segs) != 1 or o.segs[0].w[0] != "res" or x.off is not None and st.n(x.off) != ZERO:
        return None
    rid = o.segs[0].w[1]
    copy = st.res.pop(rid).copy
    n = st.fresh("n")
    st.mem[x.obj] = eng.world.buf(st, "ext", ts[0], n, n, copy, "the items")
    st.sized()
    return v, i, ts[0], n


def owned_part(v):
    if isinstance(v, Ptr):
        return v.obj is not None and v.obj[0] == "H"
    return isinstance(v, tuple) and any(owned_part(x) for x in v)


@unres("core::iter::traits::iterator::Iterator::next")
def m_user_next(eng, st, c):
    if c.info is not None:
        return DECLINE
    v = deref(eng, st, c.args[0], pt(eng, c))
    if not isinstance(v, (Opq, Tok, It)):
        return DECLINE
    eng.may_unwind(st)
    t = eng.s.adt(c.dty)["variants"][1]["fields"][0]["ty"]
    if not isinstance(v, It) or v.kind != "items":
        if st.choose(2) == 0:
            return NONE
        return some(eng.world.fresh(eng, st, t, "an item"))
    if v.pos is None:
        q = sequence(eng, st, t)
        if q is None:
            st.led[v.a] = "unknown"
            put(eng, st, c.args[0], pt(eng, c), Opq("user iterator"))
            if st.choose(2) == 0:
                return NONE
            return some(eng.world.fresh(eng, st, t, "an item"))
        st.led[v.a] = q + (t, ZERO, ("c", False))
        v = v._replace(pos=ZERO)
        put(eng, st, c.args[0], pt(eng, c), v)
    x, i, term, n, ty, f, odd = st.led[v.a]
    if odd[1] or not st.must(("ge", n - f - 1)):
        return NONE
    if f != ZERO and st.choose(2) == 1:
        # one of another type, and the last one
        st.led[v.a] = (x, i, term, n, ty, f, ("c", True))
        y = eng.world.fresh(eng, st, t, "an item of another type")
        if not st.assume(("not", ("tid", [z.term for z in y.fields if isinstance(z, TId)][0], term))):
            raise Dead()
        return some(y)
    st.led[v.a] = (x, i, term, n, ty, st.n(f + 1), odd)
    b = x.fields[i]
    b = b._replace(off=st.n((b.off or ZERO) + f * st.size(term)))
    return some(x._replace(fields=x.fields[:i] + (b,) + x.fields[i + 1:]))


@unres("core::iter::traits::iterator::Iterator::size_hint")
def m_user_hint(eng, st, c):
    if c.info is not None:
        return DECLINE
    x = st.fresh("h")
    st.fact(UMAX - x)
    return Agg("tuple", 0, (x, NONE))


@unres(*["core::iter::traits::iterator::Iterator::" + n for n in (
    "take take_while skip skip_while step_by map filter filter_map peekable enumerate fuse inspect chain zip by_ref scan map_while cloned copied "
    "for_each fold count last nth all any find position try_for_each try_fold reduce").split()])
def m_user_other(eng, st, c):
    if c.info is not None:
        return DECLINE
    return provided(eng, st, c)


@unres("num_traits::identities::Zero::zero")
def m_zero(eng, st, c):
    return eng.world.fresh(eng, st, c.dty, "zero")


@model("num_traits::cast::cast")
def m_numcast(eng, st, c):
    """conversion of one number to another"""
    part = m.origin(eng, st, c.args[0], c.argtys[0])
    if part is None:
        raise Undec("converted number")
    m.hashed(eng, st, part, ("conv", "elems"))
    if st.choose(2) == 0:
        return NONE
    return some(eng.world.fresh(eng, st, eng.s.adt(c.dty)["variants"][1]["fields"][0]["ty"], "a number"))


@model("core::iter::traits::iterator::Iterator::collect")
def m_collect(eng, st, c):
    """collect into a vector: elements in order, produced by next()"""
    if not eng.tys.is_vec(c.dty):
        return DECLINE
    ety = eng.tys.k(c.dty)["args"][0]
    fr = st.frames[-1]
    t = fr.body["blocks"][fr.bb][1]
    dest, target = t[3], t[4]
    loc = eng.place(st, fr, dest)
    eng.store(st, loc, VecV(None, None, ZERO, ZERO, ety))
    r = desugared(eng, st, eng.ptr_of(loc), ety, c.args[0], c.argtys[0])
    if r is DECLINE:
        raise Undec("collect")
    b = eng.s.body(r.f)
    if not b:
        raise Undec("collect")
    raise Redirect(r.f, b, r.args, (None, target))


class Redirect(Exception):
    def __init__(self, inst, body, args, data):
        self.inst, self.body, self.args, self.data = inst, body, args, data
