"""Abstract interpretation of MIR: ownership, layout and bounds of type-erased storage.

States are partitioned by path; loops are summarised by an invariant that is inferred from two unrollings and
verified by one more abstract iteration (see loop.py)."""
import time
import dispatch
from dom import *
from poly import P, p, ZERO, ONE, div_exact, prove
from tys import Tys
import loop as looper

BUDGET = {"steps": 60000, "seconds": 60.0}


class Unw(Exception):
    """a panic starts here"""


class Halt(Exception):
    """a violation was reported on this path"""


class Loc:
    __slots__ = ("obj", "path", "off", "ty", "meta")

    def __init__(self, obj, path, off, ty, meta=None):
        self.obj, self.path, self.off, self.ty, self.meta = obj, path, off, ty, meta


class Call:
    """what a model sees of a call"""
    __slots__ = ("path", "name", "args", "argtys", "dty", "gargs", "info", "span", "trait")


INT = ("usize", "u64", "isize", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "u128", "i128", "char")


class Eng:
    Halt = Halt

    def __init__(self, sess, models):
        self.s = sess
        self.tys = Tys(sess)
        self.models = models
        self.events = {}
        self.checked = {}
        self.unwinds = 0
        self.suspects = {}
        self.lits = set()
        self.unroll = 0
        self.undecs = {}
        self.dones = 0
        self.heads = {}
        self.root = None
        self.steps = 0
        self.on_exit = None
        self.on_unwind = None
        self.funcs = set()
        self.sites = set()
        self.trace = False
        self.allarms = False
        self.reps, self.odd = (8,), set()
        self.noting, self.sigs = False, set()
        self.vague = False
        self.armsites = set()

    # ------------------------------------------------------------ reports
    def where(self, st):
        """functions of the analysed crate on the stack, innermost first"""
        out = []
        for f in reversed(st.frames):
            info = self.s.insts[f.inst]
            if info["local"] and (not out or out[-1][0] != info["path"]):
                out.append((info["path"], self.span(f)))
        return out

    def span(self, f):
        b = f.body["blocks"][f.bb]
        st, t, _ = b
        for x in ([t] if f.ix >= len(st) else [st[f.ix]]):
            for y in reversed(x):
                if isinstance(y, str) and y.startswith("src/"):
                    return y
        return ""

    def event(self, st, kind, msg):
        if prove(p(-1), st.facts, 5):
            raise Dead()    # an impossible path
        w = self.where(st)
        site = w[0][0] if w else "?"
        key = (kind, self.root, site, "unwinding" if st.unw else "")
        # behind a loop summary facts may be missing: such an event has to be confirmed by a path without one
        into = self.suspects if st.fuzzy else self.events
        if key not in into:
            into[key] = {"msg": msg, "where": w[0][1] if w else "", "path": ["%s %s" % x for x in w] + list(st.notes)}
            odd = [x for x in st.notes if x.startswith("alignment ")]
            if odd:
                into[("align",) + key[1:]] = dict(into[key], msg="for %s, whose code differs from that for other alignments: %s" % (odd[0], msg))
        raise Halt()

    def undec(self, st, why):
        if st and prove(p(-1), st.facts, 5):
            return          # an impossible path
        w = self.where(st) if st else []
        self.undecs.setdefault("%s at %s" % (why, w[0][0] if w else "?"), 0)
        self.undecs["%s at %s" % (why, w[0][0] if w else "?")] += 1

    def tick(self, kind):
        self.checked[kind] = self.checked.get(kind, 0) + 1

    def need(self, st, cond, kind, msg, final=False):
        """an obligation: cond must hold on this path. Where it only holds in some cases, these are followed further"""
        self.tick(kind)
        d = st.decide(cond)
        if d is True:
            return
        w = st.witness(("not", cond))
        if w is None and st.sized() and st.decide(cond) is True:
            return
        if w is None:
            raise Undec("cannot decide %s: %s" % (kind, show(cond, st)))
        m = msg + " (" + show(cond, st) + " fails, for example with " + \
            ", ".join("%s = %s" % (k, v) for k, v in sorted(w.items())[:6]) + ")" if w else msg
        try:
            self.event(st, kind, m)
        except Halt:
            if final or d is False:
                raise
            x, y = st.copy(), st.copy()
            if not (x.assume(cond) and x.decide(cond) is True and not prove(p(-1), x.facts, 5)):
                raise
            if y.assume(cond, False) and y.decide(cond) is not False:
                raise
            raise Split(cond)

    # ------------------------------------------------------------ memory
    def obj(self, st, o):
        x = st.mem.get(o)
        if x is None:
            raise Undec("pointer to a missing object %s" % (o,))
        self.tick("uaf")
        if not x.alive:
            self.event(st, "uaf", "memory is used after it was freed")
        return x

    def cell_ty(self, ty, path):
        for i in path:
            while self.tys.transparent(ty):
                ty = self.tys.inner(ty)
            x = self.tys.k(ty)
            if isinstance(i, tuple):          # (variant, field)
                ty = self.tys.fields(ty, i[0])[i[1]][1]
            elif x["k"] == "array":
                ty = x["t"]
            else:
                ty = self.tys.fields(ty)[i][1]
        return ty

    def get_path(self, v, path):
        for i in path:
            if isinstance(v, Agg):
                j = i[1] if isinstance(i, tuple) else i
                if isinstance(i, tuple) and v.variant != i[0]:
                    raise Undec("field of another variant")
                if j >= len(v.fields):
                    raise Undec("missing field")
                v = v.fields[j]
            elif v is UNINIT:
                return UNINIT
            elif isinstance(v, VecV) and i == 1:
                v = v.len
            elif isinstance(v, VecV) and path[:3] == (0, 0, 0):
                return Ptr(v.obj, (), ZERO, None, None)
            elif isinstance(v, VecV) and path[:3] == (0, 0, 1):
                return v.cap                    # RawVec { inner: RawVecInner { ptr, cap, .. }, .. }
            elif isinstance(v, Opq):
                return Opq(v.s + ".")
            else:
                raise Undec("field of %s" % type(v).__name__)
        return v

    def set_path(self, v, path, new, ty):
        if not path:
            return new
        if isinstance(v, VecV) and path == (1,) and isinstance(new, P):
            return v._replace(len=new)
        i = path[0]
        var, j = i if isinstance(i, tuple) else (0, i)
        while self.tys.transparent(ty):
            ty = self.tys.inner(ty)
        x = self.tys.k(ty)
        if x["k"] == "array":
            if not isinstance(v, Agg):
                raise Undec("store into an array")
            fty = x["t"]
        else:
            fs = self.tys.fields(ty, var)
            fty = fs[j][1]
            if v is UNINIT:
                v = Agg("adt", var, tuple(UNINIT for _ in fs))
        if not isinstance(v, Agg):
            raise Undec("store into a field of %s" % type(v).__name__)
        f = list(v.fields)
        f[j] = self.set_path(f[j], path[1:], new, fty)
        return Agg(v.kind, v.variant, tuple(f))

    def bytes_of(self, st, v, ty):
        if isinstance(v, Byt):
            return v.size, v.segs
        if isinstance(v, Tok):
            sz = st.size(v.term)
            return sz, (Seg(ZERO, sz, ("res", v.rid, v.off)),)
        if v is UNINIT:
            sz = self.tys.size(st, ty)
            return sz, (Seg(ZERO, sz, ("raw",)),)
        if isinstance(v, P):
            sz = self.tys.size(st, ty)
            return sz, (Seg(ZERO, sz, ("plain",) if v.const() is not None else ("unk",)),)
        raise Undec("bytes of %s" % type(v).__name__)

    def storage(self, st, loc):
        """(size, segs, writer) of the bytes an address with a byte offset lies in"""
        o = self.obj(st, loc.obj)
        if isinstance(o, Buf):
            def wr(segs):
                st.mem[loc.obj] = o._replace(segs=segs)
            return o.size, o.segs, wr
        v = self.get_path(o.val, loc.path)
        ty = self.cell_ty(o.ty, loc.path)
        sz, segs = self.bytes_of(st, v, ty)

        def wr(segs):
            nv = self.canon(st, segs, sz, ty)
            st.mem[loc.obj] = o._replace(val=self.set_path(o.val, loc.path, nv, o.ty))
        return sz, segs, wr

    def canon(self, st, segs, sz, ty):
        """bytes back to a typed value, if they form one"""
        segs = st.merge(segs)
        t = self.tys.strip(ty)
        if self.tys.generic(t) and len(segs) == 1 and segs[0].w[0] == "res":
            r = st.res[segs[0].w[1]]
            if st.t(r.term) == st.t(self.tys.register(t)):
                return Tok(segs[0].w[1], st.n(segs[0].s + segs[0].w[2]), self.tys.term(t))
        return Byt(sz, segs)

    def load(self, st, loc):
        o = self.obj(st, loc.obj)
        if isinstance(o, Cell):
            v = self.get_path(o.val, loc.path)
            if loc.off is None:
                if self.tys.is_bytes(loc.ty):
                    if isinstance(v, Byt):
                        sz = self.tys.size(st, loc.ty)
                        if st.decide(("eq", sz - v.size)) is True:
                            return v
                        return self.typed_read(st, v.segs, ZERO, loc.ty)
                    if isinstance(v, (Opq, P)):
                        return v
                elif not isinstance(v, Byt):
                    if isinstance(v, Tok):
                        return self.retype(st, v, loc.ty)
                    if v is UNINIT and self.tys.kind(loc.ty) == "tuple" and self.tys.k(loc.ty)["ts"] == []:
                        return UNIT
                    return v
            sz, segs = self.bytes_of(st, v, self.cell_ty(o.ty, loc.path))
            off = loc.off or ZERO
            self.inside(st, off, self.tys.size(st, loc.ty), sz, "read")
            return self.typed_read(st, segs, off, loc.ty)
        off = loc.off if loc.off is not None else ZERO
        self.inside(st, off, self.tys.size(st, loc.ty), o.size, "read")
        return self.typed_read(st, o.segs, off, loc.ty)

    def retype(self, st, v, ty):
        t = self.tys.strip(ty)
        if self.tys.kind(t) in ("adt", "tuple", "array") and not self.tys.generic(t) and self.tys.is_bytes(t):
            sz, segs = self.bytes_of(st, v, t)
            return Byt(sz, segs)
        a, b = st.t(v.term), st.t(self.tys.register(t))
        if a != b:
            self.need(st, ("tid", v.term, self.tys.term(t)), "type",
                      "a value of type %s is read as %s" % (a, b))
        return v

    def inside(self, st, off, n, size, what):
        self.need(st, ("ge", off), "bounds", what + " before the start of the storage")
        self.need(st, ("ge", size - off - n), "bounds", what + " outside the storage")

    def typed_read(self, st, segs, off, ty):
        t = self.tys.strip(ty)
        sz = self.tys.size(st, ty)
        pre, mid, post = st.cut(segs, off, off + sz)
        if self.tys.is_bytes(ty):
            if not st.covered(mid, off, off + sz):
                raise Undec("bytes outside known storage")
            return Byt(sz, st.shift(mid, -off))
        return self.elem_at(st, mid, off, sz, t, "read")

    def elem_at(self, st, mid, off, sz, ty, what):
        """one value of type ty stored in the segments mid == [off, off+sz)"""
        mid = st.merge(mid)
        t = self.tys.register(ty)
        if any(s.w[0] == "raw" for s in mid):
            self.event(st, "uninit", "memory without a value is used as a %s" % self.tys.name(ty))
        if not st.covered(mid, off, off + sz):
            raise Undec("value outside known storage")
        if len(mid) != 1:
            if self.tys.kind(ty) == "prim" and not mid:
                return Opq("int")
            raise Undec("value in several pieces")
        w = mid[0].w
        r = st.res[w[1]]
        self.same_type(st, r.term, t, what)
        x = st.n(off + w[2])
        self.whole(st, x, sz, what)
        self.alive(st, w[1], x, x + sz, what)
        return Tok(w[1], x, t)

    def same_type(self, st, a, b, what):
        self.tick("type")
        if st.decide(("tid", a, b)) is not True:
            if is_guess(a) or is_guess(b):
                raise Undec("unknown type")
            self.event(st, "type", "stored elements of type %s are %s as %s" % (st.t(a), what, st.t(b)))

    def whole(self, st, x, sz, what):
        self.tick("whole")
        x, sz = st.n(x), st.n(sz)
        if not x.t or div_exact(x, sz) is not None:
            return
        for f in st.multiples(sz):
            if div_exact(x - f, sz) is not None:
                return
        w = st.witness(("c", True), mod=(x, sz))
        if w is None:
            raise Undec("element boundary")
        self.event(st, "whole", "bytes starting inside an element are %s as an element (offset %s, element size %s)" % (what, x, sz))

    # ---- ownership ledgers
    def alive(self, st, rid, a, b, what):
        self.tick("dropped")
        r = st.res[rid]
        if r.copy:
            return
        for s in st.led.get((rid, "drop"), ()):
            self.need(st, ("or", ("ge", s.s - b), ("ge", a - s.e)), "dropped", "a value that was already dropped is %s" % what)

    def add_drop(self, st, rid, a, b, what="dropped"):
        self.tick("double")
        r = st.res[rid]
        if r.copy or st.eq(a, b):
            return
        for s in st.led.get((rid, "drop"), ()):
            self.need(st, ("or", ("ge", s.s - b), ("ge", a - s.e)), "double",
                      "a value is dropped twice")
        st.led[(rid, "drop")] = st.ladd(st.led.get((rid, "drop"), ()), a, b)

    def write(self, st, loc, segs, n):
        """writes n bytes given by segs (relative to 0) at loc"""
        size, old, wr = self.storage(st, loc)
        off = loc.off if loc.off is not None else ZERO
        self.inside(st, off, n, size, "write")
        pre, mid, post = st.cut(old, off, off + n)
        new = st.shift(segs, off)
        if len(new) == 1 and new[0].w[0] == "res" and new[0].w[1][0] == "in" and new[0].w[1][2] in ("zero", "a number") \
                and isinstance(st.mem.get(loc.obj), Buf) and st.res[new[0].w[1]].copy:
            # numbers made one after the other
            fam = ("uv", "numbers")
            r = st.res[new[0].w[1]]
            if fam in st.res and st.res[fam].term != r.term:
                fam = ("uv", "numbers", r.term)
            st.res[fam] = Res(r.term, r.total, True, True, "numbers")
            new = (Seg(new[0].s, new[0].e, ("res", fam, ZERO)),)
        if len(new) == 1 and new[0].w[0] == "res" and pre and pre[-1].w[0] == "res":
            pre, new = self.repeated(st, pre, new[0])
        wr(st.merge(tuple(pre) + tuple(new) + tuple(post)))

    def repeated(self, st, pre, s):
        """copies of one value next to each other become one run of a family of copies"""
        l, rid = pre[-1], s.w[1]
        r = st.res[rid]
        src = st.n(s.s + s.w[2])
        fam = ("cp", rid, src)
        if not r.copy or not st.eq(l.e, s.s) or not st.eq(s.e - s.s, st.size(r.term)):
            return pre, (s,)
        if l.w[1] == rid and st.eq(l.s + l.w[2], src) and st.eq(l.e - l.s, s.e - s.s):
            st.res[fam] = Res(r.term, r.total, True, True, "copies")
            st.led[(fam, "prov")] = (Seg(ZERO, ONE, ("rep", rid, src)),)
            return pre[:-1], (Seg(l.s, s.e, ("res", fam, st.n(-l.s))),)
        if l.w[1] == fam:
            return pre[:-1], (Seg(l.s, s.e, l.w),)
        return pre, (s,)

    def store(self, st, loc, v):
        o = self.obj(st, loc.obj)
        if isinstance(o, Cell) and loc.off is None:
            cur = self.get_path(o.val, loc.path) if loc.path else o.val
            if not (isinstance(cur, Byt) and not isinstance(v, (Byt, Tok)) and v is not UNINIT and loc.path == () and False):
                if isinstance(v, Byt):
                    v = self.canon(st, v.segs, v.size, self.cell_ty(o.ty, loc.path))
                st.mem[loc.obj] = o._replace(val=self.set_path(o.val, loc.path, v, o.ty))
                return
        if isinstance(v, Opq) or isinstance(v, P):
            sz = self.tys.size(st, loc.ty)
            self.write(st, loc, (Seg(ZERO, sz, ("plain",) if isinstance(v, P) and v.const() is not None else ("unk",)),), sz)
            return
        sz, segs = self.bytes_of(st, v, loc.ty)
        self.write(st, loc, segs, sz)

    def copy_bytes(self, st, src, dst, n):
        size, segs, _ = self.storage(st, src)
        off = src.off if src.off is not None else ZERO
        self.inside(st, off, n, size, "read")
        pre, mid, post = st.cut(segs, off, off + n)
        if not st.covered(mid, off, off + n):
            raise Undec("copy from unknown storage")
        self.write(st, dst, st.shift(mid, -off), n)

    def heap(self, st, o):
        n = 0
        while ("H", n) in st.mem:
            n += 1
        st.mem[("H", n)] = o
        return ("H", n)

    def free(self, st, obj, size, align, what):
        o = st.mem.get(obj)
        if o is None:
            raise Undec("free of a missing object")
        if not o.alive:
            self.event(st, "free", "memory is freed twice")
        if o.kind != "heap":
            self.event(st, "free", "memory that is not owned is freed")
        if isinstance(o, Buf):
            s, a = o.size, o.align
        else:
            s, a = self.tys.size(st, o.ty), self.tys.align(st, o.ty)
        self.need(st, ("eq", size - s), "layout", "%s with size %s instead of %s" % (what, st.n(size), st.n(s)))
        self.need(st, ("eq", align - a), "layout", "%s with alignment %s instead of %s" % (what, st.n(align), st.n(a)))
        st.mem[obj] = o._replace(alive=False)

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        l, proj = pl
        d = len(st.frames) - 1
        loc = Loc(("L", d, l), (), None, fr.body["locals"][l])
        var = None
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.load(st, loc)
                t = self.tys.pointee(loc.ty)
                if t is None:
                    raise Undec("dereference of " + self.tys.name(loc.ty))
                if not isinstance(v, Ptr):
                    raise Undec("dereference of %s" % type(v).__name__)
                loc = self.at(st, v, t)
                var = None
            elif k == "f":
                t = loc.ty
                while self.tys.transparent(t):
                    if self.tys.strip(e[2]) == self.tys.strip(t) or self.tys.transparent(e[2]) or True:
                        break
                if self.tys.transparent(loc.ty) or self.tys.is_box(loc.ty):
                    if self.tys.conc_size(e[2]) == (0, 1):
                        raise Undec("field of a wrapper")
                    loc = Loc(loc.obj, loc.path, loc.off, e[2], loc.meta)
                else:
                    loc = self.field(st, loc, e[1] if var is None else (var, e[1]), e[2])
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                i = self.load(st, Loc(("L", d, e[1]), (), None, fr.body["locals"][e[1]]))
                loc = self.index(st, loc, i)
            elif k == "ci":
                if e[3]:
                    if loc.meta is None:
                        raise Undec("constant index from the end")
                    loc = self.index(st, loc, loc.meta - e[1])
                else:
                    loc = self.index(st, loc, p(e[1]))
            elif k in ("oc", "ub"):
                loc = Loc(loc.obj, loc.path, loc.off, loc.ty, loc.meta)
            else:
                raise Undec("projection " + k)
        return loc

    def at(self, st, v, t):
        if v.obj is None:
            return Loc(None, (), v.off, t, v.meta)
        return Loc(v.obj, v.path, v.off, t, v.meta)

    def field(self, st, loc, i, ty):
        o = self.obj(st, loc.obj)
        if isinstance(o, Buf) or loc.off is not None:
            raise Undec("field of a structure in erased storage")
        return Loc(loc.obj, loc.path + (i,), None, ty)

    def index(self, st, loc, i):
        x = self.tys.k(loc.ty)
        if x["k"] not in ("array", "slice"):
            raise Undec("index into " + x["k"])
        o = self.obj(st, loc.obj)
        if isinstance(o, Cell) and loc.off is None:
            v = self.get_path(o.val, loc.path)
            if isinstance(v, Agg):
                c = st.n(i).const()
                if c is None:
                    raise Undec("symbolic array index")
                return Loc(loc.obj, loc.path + (c,), None, x["t"])
        sz = self.tys.size(st, x["t"])
        return Loc(loc.obj, loc.path, (loc.off or ZERO) + i * sz, x["t"])

    def ptr_of(self, loc):
        return Ptr(loc.obj, loc.path, loc.off, loc.meta, None)

    # ------------------------------------------------------------ operands and rvalues
    def const(self, st, fr, c):
        ty = c["ty"]
        x = self.tys.k(ty)
        if "int" in c:
            if self.nonzero_opt(ty):
                return Agg("adt", 0, ()) if c["int"] == 0 else Agg("adt", 1, (p(c["int"]),))
            if x["k"] == "prim" and x["s"] == "bool":
                return ("c", bool(c["int"]))
            if self.tys.is_ptr(ty):
                return Ptr(None, (), p(c["int"]), None, None)
            if x["k"] == "adt" and not self.tys.transparent(ty):
                a = self.s.adt(ty)
                if a and x.get("enum"):
                    for i, v in enumerate(a["variants"]):
                        if v.get("discr") == c["int"]:
                            return Agg("adt", i, tuple(self.zst(f["ty"]) for f in v["fields"]))
                raise Undec("constant of " + x["s"])
            if x["k"] == "prim" and 3 < c["int"] < 300 and fr is not None and self.s.insts[fr.inst]["local"]:
                self.lits.add(c["int"])
            return p(c["int"])
        if c.get("zst"):
            if x["k"] == "fndef":
                return Fn(ty)
            if x["k"] == "tuple" and not x["ts"]:
                return UNIT
            if x["k"] == "closure":
                return Agg("closure", 0, ())
            if x["k"] == "adt" and not x.get("enum"):
                a = self.s.adt(ty)
                return Agg("adt", 0, tuple(self.zst(f["ty"]) for f in a["variants"][0]["fields"])) if a else Opq("zst")
            if x["k"] == "adt":
                a, i = self.s.adt(ty), c.get("variant", 0)
                return Agg("adt", i, tuple(self.zst(f["ty"]) for f in a["variants"][i]["fields"]) if a else ())
            return Opq("zst")
        if "agg" in c:
            fs = tuple(self.const(st, fr, y) for y in c["agg"])
            if self.tys.transparent(ty):
                return fs[0] if fs else UNINIT
            return Agg("adt" if x["k"] == "adt" else x["k"], c.get("variant") or 0, fs)
        if "promoted" in c:
            return self.promoted(st, c)
        if "un" in c:
            return self.named_const(st, fr, c)
        if "str" in c:
            return Ptr(None, (), ZERO, p(len(c["str"]) if isinstance(c["str"], str) else 0), None)
        if x["k"] == "ref" or x["k"] == "ptr":
            return Opq("constref")
        return Opq("const")

    def zst(self, ty):
        x = self.tys.k(ty)
        if x["k"] == "fndef":
            return Fn(ty)
        if x["k"] == "tuple":
            return UNIT
        return Opq("zst")

    def named_const(self, st, fr, c):
        x = self.tys.k(c["ty"])
        n = c["un"]
        if n.endswith("SizedTypeProperties::SIZE"):
            return self.tys.size(st, c["args"][0])
        if n.endswith("SizedTypeProperties::ALIGN"):
            return self.tys.align(st, c["args"][0])
        if n.endswith("SizedTypeProperties::LAYOUT"):
            return Agg("adt", 0, (self.tys.size(st, c["args"][0]), self.tys.align(st, c["args"][0])))
        if n.endswith("SizedTypeProperties::MAX_SLICE_LEN"):
            sz = self.tys.size(st, c["args"][0])
            if sz.const() == 0:
                return UMAX
            x = st.fresh("m")
            st.fact(IMAX - x * sz)
            st.fact((x + 1) * sz - IMAX - 1)
            return x
        if n.endswith("SizedTypeProperties::IS_ZST"):
            return ("eq", self.tys.size(st, c["args"][0]))
        if x["k"] == "prim" and x["s"] == "usize" and c.get("inst") is not None:
            raise Undec("constant " + n)
        if c.get("inst") is not None:
            raise Undec("constant " + n)
        return Opq("const " + n)

    def promoted(self, st, c):
        b = self.s.body(c["inst"], c["promoted"])
        if not b:
            raise Undec("promoted constant")
        # straight-line evaluation
        sub = St()
        sub.sub, sub.tsub, sub.facts, sub.nes, sub.bools, sub.res = st.sub, st.tsub, st.facts, st.nes, st.bools, st.res
        f = mkframe(c["inst"], b)
        sub.frames = [f]
        base = ("K", c["inst"], c["promoted"])
        for i, t in enumerate(b["locals"]):
            sub.mem[("L", 0, i)] = Cell("const", t, UNINIT, True)
        bb = 0
        for _ in range(20):
            stmts, t, _c = b["blocks"][bb]
            f.bb = bb
            for i, s in enumerate(stmts):
                f.ix = i
                self.stmt(sub, f, s)
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "ret":
                break
            elif t[0] == "assert":
                bb = t[3]
            else:
                # a call in a constant
                if t[0] == "call" and not t[2] and t[4] is not None and self.tys.k(t[7])["k"] == "fndef":
                    x = self.tys.k(t[7])
                    n = self.s.insts[x["inst"]]["path"] if x.get("inst") is not None else x["path"]
                    v = None
                    if n == "core::mem::size_of":
                        v = self.tys.size(sub, x["args"][0])
                    elif n == "core::mem::align_of":
                        v = self.tys.align(sub, x["args"][0])
                    elif n == "core::any::TypeId::of":
                        v = TId(self.tys.register(x["args"][0]))
                    if v is not None and not t[3][1]:
                        k = ("L", 0, t[3][0])
                        sub.mem[k] = sub.mem[k]._replace(val=v)
                        bb = t[4]
                        continue
                if self.tys.is_ptr(c["ty"]):
                    st.mem[base] = Cell("const", self.tys.pointee(c["ty"]), Opq("promoted"), True)
                    return Ptr(base, (), None, None, None)
                raise Undec("promoted constant")
        v = sub.mem[("L", 0, 0)].val

        def move(v):
            if isinstance(v, Ptr) and v.obj is not None and v.obj[0] == "L":
                o = sub.mem[v.obj]
                n = base + (v.obj[2],)
                if n not in st.mem:
                    st.mem[n] = o
                    st.mem[n] = o._replace(val=move(o.val))
                return v._replace(obj=n)
            if isinstance(v, Agg):
                return Agg(v.kind, v.variant, tuple(move(x) for x in v.fields))
            return v
        for k, o in sub.mem.items():
            if k[0] != "L" and k not in st.mem:
                st.mem[k] = o
        return move(v)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            loc = self.place(st, fr, o[1])
            v = self.load(st, loc)
            if v is HAVOC:
                raise Undec("a value that changes in a loop")
            return v
        if k == "k":
            return self.const(st, fr, o[1])
        if k == "rc":
            return ("c", False)
        raise Undec("operand " + k)

    def oty(self, st, fr, o):
        if o[0] in ("c", "m"):
            l, proj = o[1]
            ty = fr.body["locals"][l]
            for e in proj:
                if e[0] == "*":
                    ty = self.tys.pointee(ty)
                elif e[0] == "f":
                    ty = e[2]
                elif e[0] in ("i", "ci"):
                    ty = self.tys.k(ty)["t"]
                if ty is None:
                    return None
            return ty
        if o[0] == "k":
            return o[1]["ty"]
        return None

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if [e[0] for e in r[2][1]] == ["*"]:
                v = self.load(st, self.place(st, fr, (r[2][0], [])))
                if isinstance(v, Opq):
                    return v        # static data
            return self.ptr_of(self.place(st, fr, r[2]))
        if k == "rawptr":
            return self.ptr_of(self.place(st, fr, r[1]))
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.oty(st, fr, r[2]), r[3])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), dty)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if iscond(v):
                    return neg(v)
                if isinstance(v, P) and self.tys.name(dty) in ("usize", "u64"):
                    return st.n(UMAX - v)
                return Opq("not")
            if r[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    if v.meta is None:
                        return UNIT if not (self.tys.k(dty)["k"] == "prim") else _undec("metadata")
                    return v.meta
            if r[1] == "Neg":
                return Opq("neg")
            raise Undec("unary " + r[1])
        if k == "discr":
            loc = self.place(st, fr, r[1])
            v = self.load(st, loc)
            return self.discr(st, v, loc.ty)
        if k == "agg":
            return self.aggregate(st, fr, r[1], [self.operand(st, fr, o) for o in r[2]])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if self.tys.is_bytes(dty):
                sz = self.tys.size(st, dty)
                return Byt(sz, (Seg(ZERO, sz, ("raw",) if v is UNINIT else ("plain",) if isinstance(v, P) and v.const() is not None else ("unk",)),))
            return Opq("array")
        raise Undec("rvalue " + k)

    def discr(self, st, v, ty):
        if iscond(v):
            return v
        if isinstance(v, P):
            return v
        if isinstance(v, Agg):
            a = self.s.adt(self.tys.strip(ty))
            if a:
                return p(a["variants"][v.variant]["discr"])
            return p(v.variant)
        raise Undec("discriminant of %s" % (v,))

    def aggregate(self, st, fr, kind, ops):
        k = kind[0]
        if k == "array":
            if self.tys.is_bytes(kind[1]):
                n = p(len(ops))
                return Byt(n, (Seg(ZERO, n, ("unk",)),))
            return Agg("array", 0, tuple(ops))
        if k == "tuple":
            return Agg("tuple", 0, tuple(ops))
        if k == "adt":
            ty = kind[1]
            if self.tys.transparent(ty):
                return ops[0] if ops and ops[0] != UNIT else UNINIT
            if self.tys.is_bytes(ty) and ops:
                v = ops[0]
                return v if isinstance(v, Byt) else _undec("bytes")
            if self.tys.is_box(ty):
                return ops[0]
            return Agg("adt", kind[2] or 0, tuple(ops))
        if k == "closure":
            return Agg("closure", 0, tuple(ops))
        if k == "rawptr":
            v, m = ops
            if not isinstance(v, Ptr):
                raise Undec("raw pointer from parts")
            return v._replace(meta=m if isinstance(m, P) else None)
        return Opq("agg")

    def nonzero_opt(self, ty):
        """Option<NonZero<_>>: zero stands for None"""
        x = self.tys.k(ty)
        if x["k"] != "adt" or x["path"] != "core::option::Option":
            return False
        return self.tys.path(x["args"][0]) == "core::num::nonzero::NonZero"

    def cast(self, st, fr, kind, v, sty, dty):
        x = self.tys.k(dty)
        if kind == "BoxDerefTransmute" or kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, Ptr) and v.meta is not None:
                pt = self.tys.pointee(dty)
                if pt is not None and self.tys.kind(pt) not in ("slice", "dyn", "alias") and self.tys.name(pt) != "str":
                    v = v._replace(meta=None)
            return v
        if kind.startswith("pc:") or kind.startswith("Unsize") or kind.startswith("Reify") or kind.startswith("Closure") or kind.startswith("Unsafe") or kind.startswith("Mut") or kind.startswith("Array"):
            if isinstance(v, Fn):
                f = self.tys.k(v.ty)
                return FnP(v.ty)
            if isinstance(v, Agg) and v.kind == "closure":
                return FnP(sty)
            if isinstance(v, (FnP, FnTok, Opq)):
                return v
            if isinstance(v, Ptr):
                if "Unsize" in kind:
                    a, b = self.tys.pointee(sty), self.tys.pointee(dty)
                    if a is not None and self.tys.kind(a) == "array" and b is not None and self.tys.kind(b) == "slice":
                        n = self.tys.k(a).get("len")
                        if not isinstance(n, int):
                            raise Undec("array length")
                        return v._replace(meta=p(n))
                return v
            return v
        if kind == "Transmute":
            if isinstance(v, (Ptr, Opq, P, TId)):
                if isinstance(v, P) and self.tys.is_ptr(dty):
                    return Ptr(None, (), v, None, None)
                if isinstance(v, P) and self.nonzero_opt(dty):
                    return Agg("adt", 0, ()) if st.must(("eq", v)) else Agg("adt", 1, (v,))
                return v
            if isinstance(v, Byt) and self.tys.is_bytes(dty):
                return v
            if isinstance(v, Byt):
                return self.typed_read(st, v.segs, ZERO, dty)
            if isinstance(v, Tok):
                return self.retype(st, v, dty)
            if v is UNINIT:
                return v
            if sty is not None and self.tys.name(sty) == self.tys.name(dty):
                return v
            raise Undec("transmute")
        if kind == "IntToInt":
            if isinstance(v, P):
                a, b = self.tys.conc_size(sty), self.tys.conc_size(dty)
                if a and b and b[0] >= a[0] and self.tys.name(sty)[0] == "u":
                    return v
                if v.const() is not None and b and 0 <= v.const() < 2 ** (8 * b[0] - 1):
                    return v
                if a and b and b[0] >= a[0] and st.decide(("ge", v)) is True:
                    return v
                if b and self.tys.name(dty)[0] == "u":
                    if st.must(("ge", v)) and st.must(("ge", p(2 ** (8 * b[0]) - 1) - v)):
                        return v
                    if b[0] < 8 and st.decide(("ge", v)) is True:
                        return self.div(st, v, p(2 ** (8 * b[0])))[1]
                    return self.lost(st, "x", lim=2 ** (8 * b[0]) - 1)
                return Opq("int")
            if iscond(v):
                if self.tys.kind(dty) in ("int", "uint") or self.tys.name(dty)[0] in "ui":
                    return p(1) if st.must(v) else ZERO
                return Opq("int")
            return v
        if kind in ("PointerWithExposedProvenance", "PointerExposeProvenance", "PointerExposeAddress"):
            if isinstance(v, P):
                return Ptr(None, (), v, None, None)
            return Opq("addr")
        if self.trace:
            print("CAST", kind, v)
        return Opq("cast")

    def num(self, v):
        return isinstance(v, P)

    def binop(self, st, op, a, b, dty):
        if op == "Offset":
            if not isinstance(a, Ptr) or not isinstance(b, P):
                raise Undec("offset")
            d = st.n(b * self.tys.size(st, self.tys.k(dty)["t"]))
            if st.decide(("eq", d)) is True:
                return a
            if a.obj is None:
                raise Undec("offset from an unknown pointer")
            return a._replace(off=st.n((a.off or ZERO) + d), meta=None)
        if isinstance(a, P) and isinstance(b, P):
            a, b = st.n(a), st.n(b)
            if op in ("Add", "AddUnchecked"):
                return self.add(st, a, b)
            if op in ("Sub", "SubUnchecked"):
                return self.sub(st, a, b)
            if op in ("Mul", "MulUnchecked"):
                return self.mul(st, a, b)
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                f = {"A": lambda: a + b, "S": lambda: a - b, "M": lambda: a * b}[op[0]]()
                c = ("ge", f) if op[0] == "S" else ("ge", UMAX - f)
                return Agg("tuple", 0, (f, neg(c)))
            if op == "Div":
                return self.div(st, a, b)[0]
            if op == "Rem":
                return self.div(st, a, b)[1]
            if op == "Eq":
                return ("eq", a - b)
            if op == "Ne":
                return neg(("eq", a - b))
            if op == "Lt":
                return ("ge", b - a - 1)
            if op == "Le":
                return ("ge", b - a)
            if op == "Gt":
                return ("ge", a - b - 1)
            if op == "Ge":
                return ("ge", a - b)
            if op == "Cmp":
                cs = (("ge", b - a - 1), ("eq", a - b), ("ge", a - b - 1))
                for i, c in enumerate(cs):
                    if st.must(c):
                        return Agg("adt", i, ())
                i = st.choose(3)
                if not st.assume(cs[i]):
                    raise Dead()
                return Agg("adt", i, ())
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                if op == "BitAnd":
                    return p(ca & cb)
                if op == "BitOr":
                    return p(ca | cb)
                if op in ("Shl", "ShlUnchecked"):
                    return p((ca << (cb & 63)) & (2 ** 64 - 1))
                if op in ("Shr", "ShrUnchecked"):
                    return p(ca >> (cb & 63))
                if op == "BitXor":
                    return p(ca ^ cb)
            return self.bits(st, op, a, b)
        if iscond(a) and iscond(b):
            if op == "Eq":
                if b[0] == "c":
                    return a if b[1] else neg(a)
                if a[0] == "c":
                    return b if a[1] else neg(b)
                return ("or", ("and", a, b), ("and", neg(a), neg(b)))
            if op == "Ne":
                return neg(self.binop(st, "Eq", a, b, dty))
            if op == "BitAnd":
                return ("and", a, b)
            if op == "BitOr":
                return ("or", a, b)
            if op == "BitXor":
                return self.binop(st, "Ne", a, b, dty)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("Eq", "Ne"):
            if a.obj is None or b.obj is None:
                raise Undec("pointer comparison")
            if a.obj != b.obj:          # two shared references may lead to the same place
                return st.freshbool()
            if a.path == b.path and isinstance(a.off, P) and isinstance(b.off, P):
                r = ("eq", a.off - b.off)
                return r if op == "Eq" else neg(r)
            if a == b:
                return TRUE if op == "Eq" else FALSE
            raise Undec("pointer comparison")
        if self.tys.name(dty) == "bool":
            return st.freshbool()
        return Opq("bin")

    def bits(self, st, op, a, b):
        """an operation on bits of unknown numbers"""
        if op in ("Shl", "ShlUnchecked") and b.const() is not None and st.must(("ge", UMAX - a * p(1 << (b.const() & 63)))):
            return st.n(a * p(1 << (b.const() & 63)))
        if op in ("Shr", "ShrUnchecked") and b.const() is not None:
            return self.div(st, a, p(1 << (b.const() & 63)))[0]
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                k = y.const()
                if k is not None and k & (k + 1) == 0 and k + 1 < 2 ** 64:
                    return self.div(st, x, p(k + 1))[1]
                # y is one less than a power of two
                w = st.n(y + 1).sym()
                if w and w.startswith("A:"):
                    return self.div(st, x, st.n(y + 1))[1]
                # the complement of one less than a power of two
                z = st.n(p(2 ** 64) - y)
                w, k = z.sym(), z.const()
                if w and w.startswith("A:") or k is not None and k > 0 and k & (k - 1) == 0:
                    return st.n(x - self.div(st, x, z)[1])
        return self.lost(st, "x", [a, b] if op == "BitAnd" else [])

    def lost(self, st, base, least=(), lim=None):
        """a number the analysis can't follow: what depends on it has to be confirmed with the numbers written out"""
        r = st.fresh(base)
        for x in least:
            if not st.assume(("ge", x - r)):
                raise Dead()
        if lim is not None and not st.assume(("ge", p(lim) - r)):
            raise Dead()
        st.fuzzy = True
        self.vague = True
        return r

    def add(self, st, a, b):
        r = a + b
        if st.must(("ge", UMAX - r)):
            return r
        return r - p(2 ** 64)

    def sub(self, st, a, b):
        r = a - b
        if st.must(("ge", r)):
            return r
        return r + p(2 ** 64)

    def mul(self, st, a, b):
        r = a * b
        if st.must(("ge", UMAX - r)):
            return r
        w = st.fresh("w")
        st.fact(UMAX - w)
        st.notes = st.notes + ("the product %s wraps around" % r,)
        return w

    def div(self, st, a, b):
        q = div_exact(a, b)
        if q is not None:
            if b.const() is None:
                if st.decide(("ge", b - 1)) is not True:
                    raise Undec("division")
            return q, ZERO
        if a.const() is not None and b.const():
            return p(a.const() // b.const()), p(a.const() % b.const())
        key = ("div", a, b)
        if key in st.led:
            return st.led[key]
        if b.const() == 0:
            raise Unw()
        q, r = st.fresh("q"), st.fresh("r")
        st.fact(b - 1 - r)
        if not st.equate(a - q * b - r):
            raise Dead()
        st.led[key] = (q, r)
        return st.n(q), st.n(r)

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            dst = s[1]
            dty = self.oty(st, fr, ["c", dst])
            v = self.rvalue(st, fr, s[2], dty)
            loc = self.place(st, fr, dst)
            self.store(st, loc, v)
            if s[2][0] == "use" and s[2][1][0] == "m" and not s[2][1][1][1]:
                self.clear(st, fr, s[2][1][1][0])
        elif k == "dead" or k == "live":
            self.clear(st, fr, s[1])
        elif k == "copynon":
            a, b, n = [self.operand(st, fr, x) for x in s[1:4]]
            t = self.tys.pointee(self.oty(st, fr, s[1]))
            sz = self.tys.size(st, t)
            self.copy_bytes(st, self.at(st, a, t), self.at(st, b, t), n * sz)
        elif k == "assume":
            pass
        elif k == "sd":
            loc = self.place(st, fr, s[1])
            v = self.load(st, loc)
            if isinstance(v, Agg):
                self.store(st, loc, v._replace(variant=s[2]))
            elif v is UNINIT:
                self.store(st, loc, Agg("adt", s[2], ()))
            else:
                raise Undec("set discriminant")
        else:
            pass

    def clear(self, st, fr, l):
        i = ("L", len(st.frames) - 1, l)
        c = st.mem[i]
        if c.val is not UNINIT:
            st.mem[i] = c._replace(val=UNINIT)

    # ------------------------------------------------------------ terminators
    def goto(self, st, fr, bb):
        fr.bb, fr.ix = bb, 0

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, fr, t[1])
        elif k == "switch":
            self.switch(st, fr, t)
        elif k == "ret":
            self.ret(st)
        elif k == "resume":
            self.pop_unwind(st)
        elif k in ("abort", "unreachable"):
            raise Dead()
        elif k == "assert":
            v = self.operand(st, fr, t[1])
            if not iscond(v):
                v = st.freshbool()
            if st.must(v) == bool(t[2]):
                self.goto(st, fr, t[3])
            else:
                st.notes = st.notes + ("panic: " + str(t[5]),)
                raise Unw()
        elif k == "drop":
            self.drop_place(st, fr, t)
        elif k == "call":
            self.call(st, fr, t)
        else:
            raise Undec("terminator " + k)

    def arm(self, st, fr, v):
        d = self.dispatches(fr).get(fr.bb)
        self.armsites.add(self.s.insts[fr.inst]["path"])
        ks = sorted(x for x in set(d.odd) | self.odd if x in d.canon)
        for want in self.reps:
            # the nearest possible one
            for k in sorted(d.main, key=lambda k: (abs(k.bit_length() - want.bit_length()), k)):
                if st.decide(("eq", v - k)) is not False:
                    if k not in ks:
                        ks.append(k)
                    break
        if not ks:
            raise Dead()
        k = ks[st.choose(len(ks))] if len(ks) > 1 else ks[0]
        if not st.assume(("eq", v - k)):
            raise Dead()
        if k in self.odd or k in d.odd:
            st.notes = st.notes + ("alignment %d" % k,)
        return k

    def dispatches(self, fr):
        k = ("disp", fr.inst)
        return self.tys.memo(k, lambda: dispatch.find(self.tys, fr.body))

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        arms = t[2]
        if iscond(v):
            b = 1 if st.must(v) else 0
            for c, bb in arms:
                if c == b:
                    return self.goto(st, fr, bb)
            return self.goto(st, fr, t[3])
        if isinstance(v, P):
            v = st.n(v)
            c = v.const()
            if c is None:
                if dispatch.is_dispatch(arms) and v.sym() and v.sym().startswith("A:") and not self.allarms:
                    # alignment dispatch: representatives of the arms that are the same, and every other arm
                    c = self.arm(st, fr, v)
            for x, bb in arms:
                if c is None:
                    if st.must(("eq", v - x)):
                        return self.goto(st, fr, bb)
                elif c == x:
                    return self.goto(st, fr, bb)
            return self.goto(st, fr, t[3])
        if isinstance(v, (Opq, Tok)):
            i = st.choose(len(arms) + 1)
            return self.goto(st, fr, arms[i][1] if i < len(arms) else t[3])
        raise Undec("switch on %s" % type(v).__name__)

    def ret(self, st):
        fr = st.frames[-1]
        v = st.mem[("L", len(st.frames) - 1, 0)].val
        self.pop(st)
        if not st.frames:
            st.ret = v
            self.finish(st, False)
            if st.frames:
                return              # the specification goes on with the result
            raise Dead()
        if fr.data is not None:
            dest, target = fr.data
            self.done(st, dest, target, v)

    def done(self, st, dest, target, v):
        fr = st.frames[-1]
        if target is None:
            raise Dead()
        if dest is not None:
            self.store(st, self.place(st, fr, dest), v)
        self.goto(st, fr, target)

    def pop(self, st):
        d = len(st.frames) - 1
        for i in range(len(st.frames[-1].body["locals"])):
            st.mem.pop(("L", d, i), None)
        st.frames.pop()

    def pop_unwind(self, st):
        """the current frame has finished its cleanup"""
        self.pop(st)
        self.unwind(st)

    def unwind(self, st):
        """continues unwinding in the top frame, which is at a call"""
        st.unw = True
        while st.frames:
            fr = st.frames[-1]
            t = fr.body["blocks"][fr.bb][1]
            a = {"drop": 3, "call": 5, "assert": 4}.get(t[0])
            if a is None:
                raise Undec("unwinding from " + t[0])
            u = t[a]
            if isinstance(u, int):
                self.goto(st, fr, u)
                return
            if u in ("term", "unreach"):
                raise Dead()
            self.pop(st)
        self.finish(st, True)
        raise Dead()

    def may_unwind(self, st):
        """user code that may panic runs here"""
        if st.unw:
            return
        if st.choose(2) == 1:
            st.npanic += 1
            raise Unw()

    def finish(self, st, unw):
        if unw:
            self.unwinds += 1
        else:
            self.dones += 1
        f = self.on_unwind if unw else self.on_exit
        if f:
            f(self, st)

    # ------------------------------------------------------------ drops
    def drop_place(self, st, fr, t):
        ty = t[4]
        loc = self.place(st, fr, t[1])
        self.goto_after = None
        if not self.tys.has_drop(ty):
            return self.goto(st, fr, t[2])
        body = self.glue(ty, self.env(st))
        if body is not None:
            inst, b = body
            return self.push(st, inst, b, [self.ptr_of(loc)], (None, t[2]))
        nat = self.drop_value(st, loc, ty)
        if nat is not None:
            inst, b, args = nat
            return self.push(st, inst, b, args, (None, t[2]))
        self.goto(st, fr, t[2])

    def env(self, st):
        return self.s.insts[st.frames[-1].inst]["env"]

    def glue(self, ty, env):
        """drop glue interpreted from its MIR, or None if modelled"""
        def get():
            x = self.tys.k(ty)
            if x["k"] == "adt" and (x.get("box") or x["path"] in ("alloc::vec::Vec",)):
                return None
            if x["k"] in ("param", "alias", "slice", "array", "dyn"):
                return None
            if x["k"] == "adt" and not x.get("local") and not x["path"].startswith("core::option") and not x["path"].startswith("core::result"):
                return None
            r = self.s.q(op="lookup", path="core::ptr::drop_in_place")
            i = self.s.q(op="inst", d=r["d"], sub=[["T", ty]], env=env)
            if "error" in i or i.get("inst") is None:
                return None
            b = self.s.body(i["inst"])
            return (i["inst"], b) if b else None
        return self.tys.memo(("glue", ty, env), get)

    def drop_value(self, st, loc, ty):
        """modelled destructors; may return a frame to run"""
        x = self.tys.k(ty)
        k = x["k"]
        if self.tys.generic(ty):
            v = self.load(st, loc)
            self.drop_tok(st, v)
            self.may_unwind(st)
            return None
        if k == "adt" and x.get("box"):
            v = self.load(st, loc)
            return self.drop_box(st, v, x["args"][0])
        if k == "adt" and x["path"] == "alloc::vec::Vec":
            v = self.load(st, loc)
            self.drop_vec(st, v, ty)
            return None
        if k == "slice" or k == "array":
            if self.tys.is_bytes(x["t"]) or not self.tys.has_drop(x["t"]):
                return None
            n = loc.meta
            if n is None or not self.tys.generic(x["t"]):
                raise Undec("drop of " + x["s"])
            self.drop_run(st, Ptr(loc.obj, loc.path, loc.off, None, None), x["t"], n)
            self.may_unwind(st)
            return None
        # any other foreign type: nothing that belongs to the analysed code
        v = self.load(st, loc)
        if isinstance(v, (It, Opq)):
            if isinstance(v, It) and it_owns(v):
                raise Undec("drop of an owning iterator")
            return None
        if isinstance(v, Tok):
            self.drop_tok(st, v)
            self.may_unwind(st)
            return None
        if isinstance(v, Agg) and harmless(v):
            self.may_unwind(st)
            return None
        raise Undec("drop of " + x["s"])

    def drop_tok(self, st, v):
        if isinstance(v, Opq) or isinstance(v, VT):
            return
        if v is UNINIT:
            self.event(st, "uninit", "a destructor runs on memory without a value")
        if isinstance(v, Tok):
            self.models.note(self, st, "drop of a named type")
            return self.add_drop(st, v.rid, v.off, st.n(v.off + st.size(v.term)))
        if isinstance(v, (Agg, P, Ptr)) or isinstance(v, It) and v.kind == "items":
            return
        raise Undec("drop of %s" % type(v).__name__)

    def run_segs(self, st, ptr, ty, n, what):
        """the resource segments of n elements of type ty at ptr, checked for type, wholeness and life"""
        sz = self.tys.size(st, ty)
        t = self.tys.register(ty)
        if st.eq(n, ZERO):
            return []
        if ptr.obj is None:
            if st.decide(("eq", n)) is True:
                return []
            raise Undec("elements at an unknown place")
        size, segs, _ = self.storage(st, Loc(ptr.obj, ptr.path, ptr.off, ty))
        off = ptr.off or ZERO
        end = off + n * sz
        self.inside(st, off, n * sz, size, what)
        pre, mid, post = st.cut(segs, off, end)
        out = []
        mid = st.merge(mid)
        for s in mid:
            if s.w[0] == "raw":
                self.need(st, ("ge", s.s - s.e), "uninit", "memory without values is %s as %s" % (what, self.tys.name(ty)))
                continue
            if s.w[0] == "unk":
                raise Undec("unknown bytes as elements")
            if s.w[0] == "plain":
                self.need(st, ("ge", s.s - s.e), "uninit", "bytes that are not values of the type are %s as %s" % (what, self.tys.name(ty)))
                continue
            self.same_type(st, st.res[s.w[1]].term, t, what)
            a, b = st.n(s.s + s.w[2]), st.n(s.e + s.w[2])
            self.whole(st, a, sz, what)
            self.whole(st, s.s - off, sz, what)
            self.alive(st, s.w[1], a, b, what)
            out.append((s.w[1], a, b))
        if not st.covered(mid, off, end):
            raise Undec("elements outside known storage")
        return out

    def drop_run(self, st, ptr, ty, n):
        for rid, a, b in self.run_segs(st, ptr, ty, n, "dropped"):
            self.add_drop(st, rid, a, b)

    def drop_box(self, st, v, ty):
        if isinstance(v, Opq):
            return None
        if not isinstance(v, Ptr):
            raise Undec("drop of a box")
        x = self.tys.k(ty)
        if x["k"] == "slice":
            if v.meta is None:
                raise Undec("box of unknown length")
            if st.must(("eq", v.meta)):
                return None
            sz = self.tys.size(st, x["t"])
            if self.tys.has_drop(x["t"]):
                if not self.tys.generic(x["t"]):
                    raise Undec("drop of " + x["s"])
                self.drop_run(st, v, x["t"], v.meta)
            self.free_box(st, v, v.meta * sz, self.tys.align(st, x["t"]))
            return None
        o = st.mem.get(v.obj)
        if isinstance(o, Cell) and isinstance(o.val, (VT, Opq)) or (isinstance(o, Cell) and x["k"] == "dyn"):
            if not o.alive:
                self.event(st, "free", "a function table is freed twice")
            st.mem[v.obj] = o._replace(alive=False)
            return None
        sz, al = self.tys.size(st, ty), self.tys.align(st, ty)
        if self.tys.has_drop(ty):
            if self.tys.generic(ty):
                self.drop_tok(st, self.load(st, self.at(st, v, ty)))
                self.free_box(st, v, sz, al)
                self.may_unwind(st)
                return None
            if not (isinstance(o, Cell) and not heavy(o.val)):
                raise Undec("drop of a box of " + x["s"])
        self.free_box(st, v, sz, al)
        return None

    def free_box(self, st, v, size, align):
        if v.obj is None:
            if v.meta is not None and st.decide(("eq", v.meta)) is True:
                return
            if st.decide(("eq", size)) is True:
                return
            raise Undec("free of an unknown pointer")
        if v.path:
            self.event(st, "free", "a pointer into an object is freed")
        if v.off is not None and st.decide(("eq", v.off)) is not True:
            self.need(st, ("eq", v.off), "free", "a pointer into the middle of an allocation is freed")
        self.free(st, v.obj, size, align, "freed")

    def drop_vec(self, st, v, ty):
        if isinstance(v, Opq):
            return
        if not isinstance(v, VecV):
            if v is UNINIT:
                self.event(st, "uninit", "an uninitialised vector is dropped")
            raise Undec("drop of a vector")
        e = v.ety
        if v.obj is None:
            return
        if self.tys.has_drop(e):
            if not self.tys.generic(e):
                raise Undec("drop of " + self.tys.name(ty))
            self.drop_run(st, Ptr(v.obj, (), ZERO, None, None), e, v.len)
        if not st.must(("eq", v.cap)):
            self.free(st, v.obj, v.cap * self.tys.size(st, e), self.tys.align(st, e), "freed")
        if self.tys.has_drop(e):
            self.may_unwind(st)

    # ------------------------------------------------------------ calls
    def push(self, st, inst, body, args, data):
        if len(st.frames) > 60:
            raise Undec("deep recursion")
        f = mkframe(inst, body)
        f.data = data
        d = len(st.frames)
        info = self.s.insts[inst]
        if info["local"]:
            self.funcs.add(info["path"])
        st.frames.append(f)
        n = body["argc"]
        if body.get("spread"):
            sp = body["spread"]
            if len(args) == n and isinstance(args[sp - 1], Agg):
                pass
            elif len(args) >= sp - 1:
                args = args[:sp - 1] + [Agg("tuple", 0, tuple(args[sp - 1:]))]
        if len(args) != n:
            raise Undec("argument count of " + info["path"])
        for i, t in enumerate(body["locals"]):
            v = args[i - 1] if 1 <= i <= n else UNINIT
            st.mem[("L", d, i)] = Cell("local", t, v, True)

    def call(self, st, fr, t):
        f = t[1]
        fty = t[7]
        args = [self.operand(st, fr, o) for o in t[2]]
        for o in t[2]:
            if o[0] == "m" and not o[1][1]:
                self.clear(st, fr, o[1][0])
        data = (t[3], t[4])
        x = self.tys.k(fty)
        if x["k"] == "fndef":
            return self.invoke(st, fty, args, t[8], t[9], data, t[6])
        if x["k"] == "fnptr":
            v = self.operand(st, fr, f)
            return self.invoke_value(st, v, args, t[8], t[9], data, t[6])
        raise Undec("call of " + x["k"])

    def invoke_value(self, st, v, args, argtys, dty, data, span):
        if isinstance(v, FnP):
            x = self.tys.k(v.inst)
            if x["k"] == "closure":
                b = self.s.body(x["inst"]) if x["inst"] is not None else None
                if b is None:
                    raise Undec("closure body")
                return self.push(st, x["inst"], b, [Agg("closure", 0, ())] + args, data)
            return self.invoke(st, v.inst, args, argtys, dty, data, span)
        if isinstance(v, Fn):
            return self.invoke(st, v.ty, args, argtys, dty, data, span)
        if isinstance(v, FnTok):
            r = self.models.table_call(self, st, v, args, dty)
            return self.done(st, data[0], data[1], r)
        raise Undec("call through an unknown pointer")

    def invoke(self, st, fty, args, argtys, dty, data, span):
        x = self.tys.k(fty)
        inst = x.get("inst")
        info = self.s.insts[inst] if inst is not None else None
        c = Call()
        c.info = info
        c.path = info["path"] if info else x["path"]
        c.name = c.path.rsplit("::", 1)[-1]
        c.args, c.argtys, c.dty, c.span = args, argtys, dty, span
        c.gargs = x["args"]
        c.trait = x.get("trait")
        if x.get("ctor"):
            a = self.s.adt(dty)
            return self.done(st, data[0], data[1], self.ctor(st, fty, args, dty))
        kind = info["kind"] if info else "unres"
        m = self.models.find(self, c, kind)
        if m is not None:
            try:
                r = m(self, st, c)
            except self.models.vecs.Redirect as x:
                return self.push(st, x.inst, x.body, x.args, x.data)
            if r is not self.models.DECLINE:
                if isinstance(r, self.models.Tail):
                    return self.tail(st, r, data, span)
                return self.done(st, data[0], data[1], r)
        if kind in ("virtual", "unres"):
            raise Undec("call of " + c.path)
        # calls of closures and function items through the Fn traits
        if c.trait and c.trait.startswith("core::ops::function::Fn") and len(args) == 2 and kind in ("item", "intrinsic") and info.get("closure"):
            a = args[1]
            if isinstance(a, Agg):
                args = [args[0]] + list(a.fields)
        if kind == "closure_once" and len(args) == 2 and isinstance(args[1], Agg):
            b = self.s.body(inst)
            if b and b["argc"] != 2 and not b.get("spread"):
                args = [args[0]] + list(args[1].fields)
        b = self.s.body(inst)
        if not b:
            raise Undec("no body of " + c.path)
        self.push(st, inst, b, args, data)

    def tail(self, st, r, data, span):
        if r.kind == "value":
            return self.invoke_value(st, r.f, r.args, r.argtys, r.dty, data, span)
        if r.kind == "inst":
            b = self.s.body(r.f)
            if not b:
                raise Undec("no body")
            return self.push(st, r.f, b, r.args, data)
        if r.kind == "fty":
            return self.invoke(st, r.f, r.args, r.argtys, r.dty, data, span)
        raise Undec("tail")

    def ctor(self, st, fty, args, dty):
        a = self.s.adt(dty)
        name = self.tys.k(fty)["path"].rsplit("::", 1)[-1]
        if self.tys.transparent(dty):
            return args[0]
        for i, v in enumerate(a["variants"]):
            if v["name"] == name:
                return Agg("adt", i, tuple(args))
        return Agg("adt", 0, tuple(args))

    # ------------------------------------------------------------ driver loop
    def advance(self, st):
        """runs st to the next block boundary; returns successor states"""
        out = []
        todo = [(st, [])]
        while todo:
            s, script = todo.pop()
            self.steps += 1
            if self.steps > self.max_steps or (self.steps % 64 == 0 and time.time() > self.deadline):
                raise Budget()
            if self.loop_until is not None and self.steps % 16 == 0 and time.time() > self.loop_until:
                raise looper.LoopTime()
            try:
                fr = s.frames[-1]
                stmts, t, _ = fr.body["blocks"][fr.bb]
                while fr.ix < len(stmts):
                    self.stmt(s, fr, stmts[fr.ix])
                    fr.ix += 1
                base = s
                s = base.copy()
                s.script, s.spos = script, 0
                try:
                    try:
                        self.term(s, s.frames[-1], t)
                    except Unw:
                        s.script = ()
                        if s.unw:
                            raise Dead()
                        self.unwind(s)
                    if s.frames:
                        out.append(s)
                except Split as e:
                    todo += [(b, script) for b in fork(base, e.cond)]
                except Choice as e:
                    for i in range(e.n):
                        todo.append((base.copy(), script + [i]))
            except Split as e:
                todo += [(b, script) for b in fork(s, e.cond)]
            except Unw:
                try:
                    if s.unw:
                        raise Dead()
                    self.unwind(s)
                    out.append(s)
                except (Dead, Halt):
                    pass
                except Undec as e:
                    self.undec(s, str(e))
            except (Dead, Halt):
                pass
            except Undec as e:
                self.undec(s, str(e))
        return out

    def explore(self, st, depth=None, blocks=None, head=None):
        """explores from st. With blocks: stops at the loop head (nexts) or outside the loop (exits)."""
        nexts, exits = [], []
        work = [(st, True)]
        while work:
            s, first = work.pop()
            d = len(s.frames)
            if depth is not None:
                if d < depth:
                    exits.append(s)
                    continue
                if d == depth:
                    fr = s.frames[-1]
                    if fr.ix == 0 and fr.bb == head and not first:
                        nexts.append(s)
                        continue
                    if fr.bb not in blocks:
                        exits.append(s)
                        continue
            fr = s.frames[-1]
            if self.unroll:
                if fr.ix == 0 and not self.visit(fr):
                    continue
            elif fr.ix == 0 and not (first and depth is not None):
                h = self.loop_of(fr)
                if h is not None:
                    try:
                        res = looper.run(self, s, h)
                    except Undec as e:
                        self.undec(s, str(e))
                        continue
                    work += [(x, False) for x in res]
                    continue
            for x in self.advance(s):
                if self.trace:
                    f = x.frames[-1]
                    print("  " * len(x.frames), self.s.insts[f.inst]["path"], f.bb, "UNW" if x.unw else "")
                work.append((x, False))
        return nexts, exits

    def visit(self, fr):
        """counts visits of loop heads; False beyond the bound"""
        h = self.loop_of(fr)
        if fr.active:
            for x in [x for x in fr.active if fr.bb not in self.heads[fr.inst].get(x, ())]:
                del fr.active[x]
        if h is not None:
            if fr.active is None:
                fr.active = {}
            fr.active[fr.bb] = fr.active.get(fr.bb, 0) + 1
            return fr.active[fr.bb] <= self.unroll + 1
        return True

    def small(self, states, name, seconds=None):
        """where the loops could not be summarised, paths with few iterations still show what they do"""
        if not self.undecs:
            return
        for n in (1, 2):
            e = type(self)(self.s, self.models)
            e.world, e.on_exit, e.on_unwind, e.unroll = self.world, self.on_exit, self.on_unwind, n
            e.reps, e.odd = self.reps, self.odd
            for st in states:
                e.run(st.copy(), name, seconds=(seconds or BUDGET["seconds"]) / len(states))
            for k, v in e.events.items():
                self.events.setdefault(k, v)
            if self.events or e.undecs:
                return

    def confirm(self, states, name, seconds=None):
        """events found behind loop summaries count if a path with few iterations shows them"""
        sus = {k: v for k, v in self.suspects.items() if k not in self.events}
        if not sus:
            return
        for n in (2, 3):
            e = type(self)(self.s, self.models)
            e.world, e.on_exit, e.on_unwind, e.unroll = self.world, self.on_exit, self.on_unwind, n
            e.reps, e.odd = self.reps, self.odd
            for st in states:
                e.run(st.copy(), name, seconds=seconds)
            for k in list(sus):
                if k in e.events:
                    self.events[k] = e.events[k]
                    del sus[k]
            if not sus:
                return
        # limits written in the code may only show with more elements
        for n in sorted({n + 1 for n in self.lits} | {n for n in self.lits})[:8]:
            e = type(self)(self.s, self.models)
            e.world, e.on_exit, e.on_unwind, e.unroll = self.world, self.on_exit, self.on_unwind, n + 1
            for st in states:
                c = counted(st, n)
                if c is not None:
                    e.run(c, name, seconds=seconds)
            for k in list(sus):
                if k in e.events:
                    self.events[k] = e.events[k]
                    del sus[k]
            if not sus:
                return
        # numbers the analysis lost only come out when they are written out
        if self.vague:
            for pick in PICKS:
                e = type(self)(self.s, self.models)
                e.world, e.on_exit, e.on_unwind, e.unroll = self.world, self.on_exit, self.on_unwind, 6
                for st in states:
                    c = assigned(st, pick)
                    if c is not None:
                        e.run(c, name, seconds=seconds)
                for k in list(sus):
                    if k in e.events:
                        self.events[k] = e.events[k]
                        del sus[k]
                if not sus:
                    return
        for k, v in sus.items():
            self.undecs["unconfirmed %s at %s: %s" % (k[0], k[2], v["msg"])] = 1

    def loop_of(self, fr):
        k = fr.inst
        if k not in self.heads:
            self.heads[k] = looper.find(fr.body)
        return self.heads[k].get(fr.bb)

    def run(self, st, name, steps=None, seconds=None):
        self.root = name
        self.steps = 0
        self.max_steps = steps or BUDGET["steps"]
        self.seconds = seconds or BUDGET["seconds"]
        self.deadline = time.time() + self.seconds
        self.loop_until = None
        try:
            self.explore(st)
        except Budget:
            self.undec(None, "analysis budget exhausted")


def harmless(v):
    """holds nothing that has to be released"""
    if isinstance(v, It):
        return not it_owns(v)
    if isinstance(v, Ptr):
        return v.obj is None or v.obj[0] != "H"
    if isinstance(v, (Tok, VecV)):
        return False
    if isinstance(v, Agg):
        return all(harmless(x) for x in v.fields)
    return True


class Budget(Exception):
    pass


# element size in units of its alignment, the alignment, then other numbers, smallest first
PICKS = [(1, 1, (0, 1, 2, 3)), (3, 1, (2, 0, 1, 3)), (3, 4, (3, 2, 1, 0)), (1, 8, (1, 0, 2, 5)), (5, 2, (4, 1, 3, 2)), (2, 16, (5, 3, 0, 1)),
         (1, 2, (2, 2, 2, 2)), (1, 4, (3, 5, 3, 5)), (2, 4, (1, 1, 1, 1)), (1, 1, (5, 4, 3, 2))]


def assigned(st, pick):
    """the state with the numbers it starts with written out; None if that can't be"""
    st = st.copy()
    i = 0
    for y in sorted(looper.all_syms(st), key=lambda y: (0 if y[:2] == "A:" else 1 if y[:2] == "S:" else 2, len(y), y)):
        if st.n(p(y)).const() is not None:
            continue
        if y[:2] == "A:":
            v = [pick[1]]
        elif y[:2] == "S:":
            v = [pick[0]]
        else:
            v = pick[2][i % 4:] + pick[2][:i % 4]
            i += 1
        for k in v:
            c = st.copy()
            try:
                if c.assume(("eq", p(y) - k), True):
                    st = c
                    break
            except (Split, Dead):
                pass
        else:
            return None
    return st


def counted(st, n):
    """the state with n elements in every container; None if that can't be"""
    st = st.copy()
    for y in sorted(looper.all_syms(st)):
        if y[0] == "n" and y[1:].isdigit():
            try:
                if not st.assume(("eq", p(y) - n), True):
                    return None
            except Split:
                return None
    return st


def fork(st, cond):
    """the two states in which cond is decided"""
    out = []
    for v in (True, False):
        todo = [st.copy()]
        while todo:
            b = todo.pop()
            try:
                c = b.copy()
                if c.assume(cond, v):
                    out.append(c)
            except Split as e:
                for w in (True, False):
                    c = b.copy()
                    try:
                        if c.assume(e.cond, w):
                            todo.append(c)
                    except Split:
                        pass
    return out


def mkframe(inst, body):
    f = Frame.__new__(Frame)
    f.fn = None
    f.inst, f.body, f.bb, f.ix = inst, body, 0, 0
    f.loc = f.pend = f.native = f.data = f.unw_from = f.active = None
    return f


def iscond(v):
    return type(v) is tuple and len(v) > 0 and v[0] in ("c", "not", "ge", "eq", "tid", "sym", "and", "or")


def neg(c):
    if c[0] == "c":
        return ("c", not c[1])
    if c[0] == "not":
        return c[1]
    if c[0] == "ge":
        return ("ge", -c[1] - 1)
    return ("not", c)


def _undec(s):
    raise Undec(s)


def is_guess(t):
    return t.startswith("?")


def heavy(v):
    """holds something whose destruction matters"""
    if isinstance(v, (Tok, Ptr, VecV)):
        return True
    if isinstance(v, Agg):
        return any(heavy(x) for x in v.fields)
    return False


def it_owns(v):
    return v.kind in ("vecinto",)


def show(c, st):
    k = c[0]
    if k == "ge":
        x = st.n(c[1])
        pos = P({m: v for m, v in x.t.items() if v > 0})
        ng = P({m: -v for m, v in x.t.items() if v < 0})
        return "%s <= %s" % (ng, pos)
    if k == "eq":
        x = st.n(c[1])
        pos = P({m: v for m, v in x.t.items() if v > 0})
        ng = P({m: -v for m, v in x.t.items() if v < 0})
        return "%s == %s" % (pos, ng)
    if k == "or":
        return show(c[1], st) + " or " + show(c[2], st)
    if k == "and":
        return show(c[1], st) + " and " + show(c[2], st)
    if k == "not":
        return "not " + show(c[1], st)
    if k == "tid":
        return "%s is %s" % (st.t(c[1]), st.t(c[2]))
    return str(c)
