"""C12: borrow discipline decided from the signatures and type definitions the compiler checked.

Every region-carrying part of a type is reduced to leaves (region, mode, class): mode 'x' (exclusive) or
's' (shared), class 'd' (stored data) or 'v' (function table).  A safe reachable function may put a leaf
(r, mode, class) into its result only if its arguments grant it:

  by value            &'r T, view<'r>      grants (r, s)         &'r mut T, view_mut<'r>   grants (r, x)
  under &'s           &'r T                grants (r, s)         &'r mut T                 grants (s, s)
  under &'s mut       &'r T                grants (r, s)         &'r mut T                 grants (s, x)

Views are looked through field by field, so nothing is known about them by name.
"""
import re
from session import ToolError

STD_ITER_X = ("core::slice::iter::IterMut", "core::slice::iter::ChunksExactMut", "core::slice::iter::ChunksMut")
STD_ITER_S = ("core::slice::iter::Iter", "core::slice::iter::ChunksExact", "core::slice::iter::Chunks")
# standard wrappers that own their type arguments
OWNERS = ("core::option::Option", "core::result::Result", "alloc::boxed::Box", "alloc::vec::Vec",
          "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit")


def reg(r):
    m = re.search(r"Named\(DefId\((\d+:\d+)", r)
    return "'_" + m.group(1) if m else r


def rshow(r, names):
    return names.get(r, r)


class Regions:
    def __init__(self, items, types=None):
        self.adts = {a["path"]: a for a in items["adts"]}
        self.need = False

    def subst(self, t, lts, tys):
        k = t["k"]
        if k == "lt":
            return {"k": "lt", "r": lts.get(reg(t["r"]), reg(t["r"]))}
        if k == "param":
            return tys.get(t["name"], t)
        o = dict(t)
        if "r" in o:
            o["r"] = lts.get(reg(o["r"]), reg(o["r"]))
        for f in ("t",):
            if f in o and isinstance(o[f], dict):
                o[f] = self.subst(o[f], lts, tys)
        for f in ("ts", "args", "bounds"):
            if o.get(f) and isinstance(o[f], list):
                o[f] = [self.subst(x, lts, tys) if isinstance(x, dict) and x.get("k") not in ("tyout", "regout")
                        else x for x in o[f]]
        return o

    def fields(self, t):
        a = self.adts.get(t["path"])
        if a is None:
            return None
        lts, tys = {}, {}
        for (n, k), v in zip(a["generics"], t["args"]):
            if k == "lt":
                lts[n] = reg(v["r"])
            else:
                tys[n] = v
        return [(f["name"], self.subst(f["t"], lts, tys)) for v in a["variants"] for f in v["fields"]]

    def cls(self, t):
        k = t["k"]
        if k == "param":
            return "v" if t["name"] in ("V", "U") else "d"
        if k == "adt":
            return "dv"
        if k in ("ref", "tuple"):
            return "dv"
        return "d"

    def leaves(self, t, out, ctx=None, seen=()):
        """ctx None | ('s', r) | ('x', r): how the value of type t is reached."""
        k = t["k"]
        if k == "ref":
            r, c = reg(t["r"]), self.cls(t["t"])
            mode = "x" if t["mut"] else "s"
            if ctx is None or mode == "s":
                eff = (mode, r)
            else:
                eff = ctx
            for x in c:
                out.add((eff[1], eff[0], x))
            self.leaves(t["t"], out, eff, seen)
        elif k in ("ptr", "slice", "array"):
            if isinstance(t.get("t"), dict):
                self.leaves(t["t"], out, ctx, seen)
        elif k == "tuple":
            for x in t["ts"]:
                self.leaves(x, out, ctx, seen)
        elif k == "adt":
            p = t["path"]
            if p in STD_ITER_X or p in STD_ITER_S:
                r = reg(t["args"][0]["r"])
                mode = "x" if p in STD_ITER_X else "s"
                eff = (mode, r) if (ctx is None or mode == "s") else ctx
                for x in self.cls(t["args"][1]):
                    out.add((eff[1], eff[0], x))
                self.leaves(t["args"][1], out, eff, seen)
                return
            fs = self.fields(t) if t.get("local") else None
            if fs is not None:
                if len(seen) > 12 or (p in seen):
                    return
                # an enum that may own a parameter by value or box need not borrow it
                owned = set()
                if self.adts[p]["enum"]:
                    owned = {a["name"] for _, ft in fs if ft["k"] == "adt" and ft["path"] in OWNERS
                             for a in ft["args"] if a["k"] == "param"}
                for _, ft in fs:
                    if self.need and ft["k"] == "ref" and ft["t"]["k"] == "param" and ft["t"]["name"] in owned \
                            and self.cls(ft["t"]) == "v":
                        continue
                    self.leaves(ft, out, ctx, seen + (p,))
                return
            for a in t["args"]:
                if a["k"] == "lt":
                    r = reg(a["r"])
                    out.add((r, "?", "?"))
                else:
                    self.leaves(a, out, ctx, seen)
        elif k == "alias":
            if t.get("opaque"):
                for b in t.get("bounds") or []:
                    if b["k"] == "proj":
                        self.leaves(b["t"], out, ctx, seen)
        return out


def outlives(preds):
    """'a: 'b predicates: b -> set of longer regions"""
    o = []
    for p in preds:
        m = re.match(r"^('\w+): ('\w+)$", p)
        if m:
            o.append((m.group(1), m.group(2)))
    return o


def implied(t, outer, o):
    if not isinstance(t, dict):
        return
    if t["k"] == "ref":
        r = reg(t["r"])
        if outer:
            o.append((r, outer))
        implied(t["t"], r, o)
        return
    if t["k"] == "lt":
        if outer:
            o.append((reg(t["r"]), outer))
        return
    for f in ("ts", "args"):
        for x in t.get(f) or []:
            implied(x, outer, o)
    if isinstance(t.get("t"), dict):
        implied(t["t"], outer, o)


def check_fn(R, f):
    """-> (list of problems, number of leaves examined)"""
    rout = f["rout"]
    need = set()
    R.need = True
    R.leaves(rout, need)
    R.need = False
    if not need:
        return [], 0
    have = set()
    olv = list(outlives(f["preds"]))
    for t in f["rin"]:
        R.leaves(t, have)
        implied(t, None, olv)
    # exclusive implies shared; longer implies shorter
    for _ in range(6):
        add = set()
        for (r, m, c) in have:
            if m == "x":
                add.add((r, "s", c))
            if m != "?":
                for (a, b) in olv:
                    if a == r:
                        add.add((b, m, c))
        if add <= have:
            break
        have |= add
    inregs = {r for (r, _, _) in have}
    probs = []
    n = 0
    for (r, m, c) in sorted(need):
        n += 1
        if m == "?":
            if r not in inregs and r != "'static":
                probs.append("the result carries the lifetime %s, which no argument bounds" % r)
            continue
        if (r, m, c) in have:
            continue
        what = "stored data" if c == "d" else "the function table"
        how = "exclusive" if m == "x" else "shared"
        if r == "'static":
            probs.append("the result grants %s access to %s for 'static" % (how, what))
        elif r not in inregs:
            probs.append("the result grants %s access to %s for %s, which the caller chooses freely" % (how, what, r))
        else:
            got = sorted({x for (q, x, k) in have if q == r and k == c})
            probs.append("the result grants %s access to %s for %s, but the arguments grant %s there"
                         % (how, what, r, "only shared access" if got == ["s"] else "none"))
    return probs, n
