"""Questions about types, on top of the driver's type table."""
from poly import p
import dom

PRIM = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8,
        "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "f16": 2, "f128": 16, "!": 0, "str": None}
TRANSP = {"core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit",
          "core::mem::maybe_dangling::MaybeDangling", "core::ptr::non_null::NonNull", "core::ptr::unique::Unique",
          "core::cell::UnsafeCell", "alloc::boxed::BoxRaw"}


class Tys:
    def __init__(self, sess):
        self.s = sess
        self.c = {}

    def k(self, t):
        return self.s.types[t]

    def kind(self, t):
        return self.s.types[t]["k"]

    def path(self, t):
        x = self.s.types[t]
        return x.get("path") if x["k"] == "adt" else None

    def name(self, t):
        return self.s.types[t]["s"]

    def memo(self, key, f):
        if key not in self.c:
            self.c[key] = f()
        return self.c[key]

    def transparent(self, t):
        return self.path(t) in TRANSP

    def inner(self, t):
        """the type a transparent wrapper stands for"""
        x = self.k(t)
        if x["path"] in ("core::ptr::non_null::NonNull", "core::ptr::unique::Unique", "alloc::boxed::BoxRaw"):
            return self.ptr_to(x["args"][0])
        return x["args"][0]

    def ptr_to(self, t):
        return self.memo(("ptr", t), lambda: self.s.q(op="mkty", ty=["ptr", t])["ty"])

    def mk(self, j):
        return self.memo(("mk", repr(j)), lambda: self.s.q(op="mkty", ty=j)["ty"])

    def strip(self, t):
        while self.transparent(t):
            t = self.inner(t)
        return t

    def pointee(self, t):
        t = self.strip(t)
        x = self.k(t)
        if x["k"] in ("ptr", "ref"):
            return x["t"]
        if x["k"] == "adt" and x.get("box"):
            return x["args"][0]
        return None

    def is_box(self, t):
        x = self.k(t)
        return x["k"] == "adt" and bool(x.get("box"))

    def is_ptr(self, t):
        return self.pointee(t) is not None

    def is_vec(self, t):
        return self.path(t) == "alloc::vec::Vec"

    def generic(self, t):
        """an opaque element type (parameter or projection)"""
        return self.kind(t) in ("param", "alias")

    def term(self, t):
        return self.name(t)

    def is_bytes(self, t):
        return self.memo(("bytes", t), lambda: self._bytes(t))

    def _bytes(self, t):
        x = self.k(t)
        if x["k"] == "prim":
            return x["s"] == "u8"
        if x["k"] == "adt":
            if x["path"] == "core::mem::maybe_uninit::MaybeUninit":
                y = self.k(x["args"][0])
                return self.is_bytes(x["args"][0]) or (y["k"] == "prim" and y["s"] == "usize")
            if x["path"] in TRANSP:
                return x["path"] == "core::mem::manually_drop::ManuallyDrop" and self.is_bytes(x["args"][0])
            if x.get("enum") or x.get("union") or not x.get("local"):
                return False
            a = self.s.adt(t)
            if not a:
                return False
            fs = a["variants"][0]["fields"]
            return len(fs) == 1 and self.kind(fs[0]["ty"]) == "array" and self.is_bytes(self.k(fs[0]["ty"])["t"])
        if x["k"] == "array":
            return self.is_bytes(x["t"])
        return False

    def conc_size(self, t):
        """(size, align) if known"""
        return self.memo(("size", t), lambda: self._size(t))

    def _size(self, t):
        x = self.k(t)
        if x["k"] == "prim":
            n = PRIM.get(x["s"])
            return None if n is None else (n, max(1, min(n, 16)))
        if x["k"] in ("ptr", "ref") or (x["k"] == "adt" and x.get("box")):
            y = self.k(x["t"] if x["k"] != "adt" else x["args"][0])
            if y["k"] in ("slice", "dyn") or (y["k"] == "prim" and y["s"] == "str"):
                return (16, 8)
            return (8, 8)
        if x["k"] == "array":
            e = self.conc_size(x["t"])
            n = x.get("len")
            if e is None or not isinstance(n, int):
                return None
            return (e[0] * n, e[1])
        if x["k"] == "adt":
            if self.transparent(t):
                return self.conc_size(self.inner(t))
            a = self.s.adt(t)
            if a and a.get("size") is not None:
                return (a["size"], a["align"])
            return None
        if x["k"] == "tuple":
            if not x["ts"]:
                return (0, 1)
            off, al = 0, 1
            for y in x["ts"]:
                c = self.conc_size(y)
                if c is None:
                    return None
                off = -(-off // c[1]) * c[1] + c[0]
                al = max(al, c[1])
            return (-(-off // al) * al, al)
        if x["k"] == "fndef":
            return (0, 1)
        if x["k"] == "fnptr":
            return (8, 8)
        return None

    def register(self, t):
        """makes the layout of a type of known size available to terms"""
        n = self.term(t)
        if self.generic(t):
            dom.GENERIC.add(n)
            return n
        c = self.conc_size(t)
        if c is not None and n not in dom.CONC:
            dom.CONC[n] = (c[0] // c[1], c[1])
        return n

    def size(self, st, t):
        """size in bytes as a term of the state"""
        while self.transparent(t):
            t = self.inner(t)
        x = self.k(t)
        if x["k"] == "array" and not isinstance(x.get("len"), int):
            raise dom.Undec("array of unknown length")
        c = self.conc_size(t)
        if c is not None:
            return p(c[0])
        if self.generic(t):
            return st.size(self.register(t))
        raise dom.Undec("size of " + self.name(t))

    def align(self, st, t):
        while self.transparent(t):
            t = self.inner(t)
        c = self.conc_size(t)
        if c is not None:
            return p(c[1])
        if self.generic(t):
            return st.align(self.register(t))
        raise dom.Undec("alignment of " + self.name(t))

    def fields(self, t, variant=0):
        """[(name, type)]"""
        x = self.k(t)
        if x["k"] == "tuple":
            return [(str(i), y) for i, y in enumerate(x["ts"])]
        if x["k"] == "closure":
            return [(str(i), y) for i, y in enumerate(x["upvars"])]
        a = self.s.adt(t)
        if not a:
            raise dom.Undec("fields of " + x["s"])
        return [(f["name"], f["ty"]) for f in a["variants"][variant]["fields"]]

    def has_drop(self, t):
        return self.memo(("drop", t), lambda: self._has_drop(t))

    def _has_drop(self, t):
        x = self.k(t)
        if x["k"] in ("prim", "ptr", "ref", "fndef", "fnptr"):
            return False
        if x["k"] == "adt":
            if x["path"] in TRANSP:
                return False
            if x.get("box"):
                return True
            a = self.s.adt(t)
            return bool(a["needs_drop"]) if a else True
        if x["k"] in ("array", "slice"):
            return self.has_drop(x["t"])
        if x["k"] == "tuple":
            return any(self.has_drop(y) for y in x["ts"])
        if x["k"] == "closure":
            return any(self.has_drop(y) for y in x["upvars"])
        return True
