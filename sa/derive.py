"""C19: what the tables generated by dync_trait and dync_mod support, for every list of supported supertraits.

The macros run at compile time, so the compiler is given a crate that uses them on every subset of the supported
supertraits (and on families of traits that inherit from each other), and the type-checked result is queried."""
import itertools, os, re, shutil
import session, tables
from dom import *

CAPS = ["Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync"]
SPELL = {"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}
BOUND = {"Clone": "core::clone::Clone", "PartialEq": "core::cmp::PartialEq", "Eq": "core::cmp::Eq", "Hash": "core::hash::Hash",
         "Debug": "core::fmt::Debug", "Send": "core::marker::Send", "Sync": "core::marker::Sync"}
FNS = {"Drop": ["drop"], "Clone": ["clone", "clone_from", "clone_into_raw"], "PartialEq": ["eq"], "Hash": ["hash"], "Debug": ["fmt"]}


class Trait:
    def __init__(self, path, caps, bases=()):
        self.path, self.listed, self.bases = path, list(caps), list(bases)

    def caps(self, fam):
        """the supported capabilities, its own and inherited"""
        s = {"Drop"} | set(self.listed)
        for b in self.bases:
            s |= fam[b].caps(fam)
        if "Eq" in s:
            s.add("PartialEq")
        return s

    def up(self, fam):
        s = set(self.bases)
        for b in self.bases:
            s |= fam[b].up(fam)
        return s


def generate(thorough=False):
    """(source, traits by path)"""
    src = ["#![allow(dead_code)]", "use dync::{dync_trait, dync_mod};"]
    fam = {}

    def one(name, caps, more=(), attr=""):
        b = [SPELL.get(c, c) for c in caps] + list(more)
        src.append("#[dync_trait%s]\npub trait %s%s {}" % (attr, name, ": " + " + ".join(b) if b else ""))
        fam[name] = Trait(name, caps)

    n = 0
    for k in range(len(CAPS) + 1):
        for c in itertools.combinations(CAPS, k):
            one("S%d" % n, c)
            if k > 1:
                one("R%d" % n, c[::-1])
            if thorough:
                more = itertools.permutations(c) if k <= 3 else [c[i:] + c[:i] for i in range(1, k)]
                for i, o in enumerate(more):
                    if o != c and o != c[::-1]:
                        one("P%d_%d" % (n, i), o)
            n += 1
    # bounds the macro does not know are left alone
    one("X0", ["Clone"], ["std::fmt::Display", "'static"])
    one("X1", ["Debug", "Clone"], ["AsRef<u8>", "Unpin"])
    one("X2", [], ["'static"])
    one("X3", ["Send", "Hash"], [], '(dync_crate_name = "dync")')
    # traits of the user's own that share a name with a supported one
    src.append("pub mod own { pub trait Send {} pub trait Sync {} pub trait Eq {} pub trait Clone<T> {} pub trait Hash<T> {} }")
    one("X4", [], ["own::Send", "own::Sync"])
    one("X5", ["Debug"], ["own::Eq", "own::Clone<u8>", "own::Hash<u8>"])
    one("X6", ["Clone"], ["own::Clone<u8>", "PartialEq<u8>", "crate::own::Send"])
    src.append("pub fn any_table<V>() {}")

    def mod(name, traits):
        src.append("#[dync_mod]\npub mod %s {" % name)
        for t, caps, bases, items in traits:
            b = list(bases) + [SPELL.get(c, c) for c in caps]
            if items:
                b = b[::-1]
            src.append("    pub trait %s%s {}" % (t, ": " + " + ".join(b) if b else ""))
            fam[name + "::" + t] = Trait(name + "::" + t, caps, [name + "::" + x for x in bases])
        src.append("}")

    mod("chain", [("A", ["Clone"], [], 0), ("B", ["Hash"], ["A"], 0), ("C", ["Debug"], ["B"], 1), ("D", [], ["C"], 0)])
    mod("reverse", [("D", ["Send"], ["C"], 0), ("C", ["Debug"], ["B"], 0), ("B", ["Eq"], ["A"], 1), ("A", ["Clone", "Sync"], [], 0)])
    mod("diamond", [("D", ["PartialEq"], ["L", "R"], 0), ("Top", ["Clone"], [], 0), ("L", ["Hash"], ["Top"], 0), ("R", ["Debug", "Send"], ["Top"], 0)])
    mod("overlap", [("A", ["Clone", "Debug"], [], 0), ("B", ["Clone", "Hash"], ["A"], 0), ("Other", ["Sync"], [], 0), ("Z", ["Hash", "Clone"], ["B", "A"], 1)])
    mod("eqs", [("E", ["Eq"], [], 0), ("P", ["PartialEq"], [], 0), ("Q", ["Send"], ["P", "E"], 0), ("A", [], ["Q"], 0)])
    mod("empty", [("N", [], [], 0), ("M", [], ["N"], 0)])
    for i, c in enumerate(CAPS):
        d = CAPS[(i + 3) % len(CAPS)]
        mod("pair%d" % i, [("Base", [c], [], 0), ("Derived", [d], ["Base"], i % 2)])
    if thorough:
        # every pair of capabilities over every base, with a third trait between them and a second base next to it
        for i, c in enumerate(CAPS):
            for j, d in enumerate(CAPS):
                e = CAPS[(i + j + 1) % len(CAPS)]
                ts = [("Base", [c], [], 0), ("Mid", [e], ["Base"], i % 2), ("Side", [d], [], 0), ("Low", [d], ["Side", "Mid"], j % 2)]
                mod("four%d%d" % (i, j), ts if (i + j) % 2 else ts[::-1])
    return "\n".join(src) + "\n", fam


def table(path):
    return path + "VTable"


def build(thorough=False):
    src, fam = generate(thorough)
    d = os.path.join(session.scratch(), "fixture")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "fixture"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\ndync = { path = "%s" }\n[workspace]\n' % session.REPO)
    open(os.path.join(d, "src/lib.rs"), "w").write(src)
    lock = os.path.join(session.REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return session.Build(d, "fixture", [], "fixture", mir=True), fam


class Q:
    def __init__(self, s, rep):
        self.s, self.rep = s, rep
        self.fns = s.items()["fns"]
        self.ev = tables.Eval(s)
        self.built = {}

    def holds(self, item, trait, ty, extra=(), targs=()):
        r = self.s.q(op="holds", d=item["d"], trait=trait, ty=ty, extra=list(extra), targs=list(targs))
        if "error" in r:
            raise Undec(r["error"])
        return r["holds"]

    def ty(self, spec):
        r = self.s.q(op="mkty", ty=spec)
        return r.get("ty")

    def method(self, trait, name, args):
        r = self.s.q(op="method", trait=trait, name=name, args=args)
        return r.get("inst")


def run(rep):
    try:
        b, fam = build(rep.tier == "thorough")
    except session.ToolError as x:
        session.Build(session.REPO, "dync", ["--all-features"], "all")      # the crate itself compiles
        err = re.findall(r"error.*(?:\n.*){0,4}?src/lib.rs:(\d+)", str(x))
        src = generate(rep.tier == "thorough")[0].split("\n")
        at = next((src[int(l) - 1 + k] for l in err[:1] for k in range(0, 3) if "trait" in src[int(l) - 1 + k]), "?")
        msg = re.search(r"error(\[\w+\])?:.*", str(x))
        rep.violation("the generated code compiles", "%s for %s" % (msg.group(0) if msg else "error", at.strip()), "dync-derive/src/lib.rs")
        return
    s = b.session()
    q = Q(s, rep)
    builds = {}
    froms = {}
    for f in q.fns:
        if f["name"] == "build_vtable" and f["has_body"]:
            builds[f["impl_self"]] = f
        elif f["name"] == "from" and f["has_body"] and (f["impl_trait"] or "").split("<")[0] == "core::convert::From":
            froms[(f["impl_self"], s.types[f["in"][0]]["s"])] = f
    rep.notes["analysed"] = {"traits": len(fam), "tables": len(builds), "conversions": len(froms)}
    for path, t in fam.items():
        trait(q, rep, fam, t, builds, froms)
    s.close()


def label(fam, t):
    l = " + ".join([x.split("::")[-1] for x in t.bases] + t.listed) or "nothing"
    return "%s: %s" % (t.path, l)


def slots(q, tabty, val, caps):
    """operation -> what the accessor of the table value returns"""
    out = {}
    for c in caps:
        for op in FNS.get(c, ()):
            i = q.method("dync::traits::Has" + c, op + "_fn", [tabty])
            if i is None:
                raise Undec("no %s_fn" % op)
            body = q.s.body(i)
            if body is None:
                raise Undec("no body for %s_fn" % op)
            a, mem = tables.cells(val, tabty)
            r, st = q.ev.call(i, [a], mem)
            out[op] = tables.slot(q.s, tables.deref(st, r))
    return out


def right(rep, key, got, caps, span):
    bad = []
    for op, x in sorted(got.items()):
        if x is None:
            return rep.undec(key, "the function for %s is not known" % op)
        if x[0] != "op" or x[1] != op:
            bad.append("%s_fn is %s" % (op, "the %s function" % x[1] if x[0] == "op" else "another function"))
        elif x[2] != "T":
            bad.append("%s_fn belongs to %s" % (op, x[2]))
    if bad:
        rep.violation(key, "; ".join(bad), span)
    else:
        rep.hold(key, "%d functions: %s" % (len(got), ", ".join(sorted(got))))


def trait(q, rep, fam, t, builds, froms):
    caps = t.caps(fam)
    name = label(fam, t)
    tab = table(t.path)
    f = builds.get(tab)
    if f is None:
        return rep.violation(name + ": a table is generated", "no %s that implements VTable" % tab, "dync-derive/src/lib.rs")
    ty = q.ty(tab) if not isinstance(q.ty([tab]), int) else q.ty([tab])
    if ty is None:
        return rep.undec(name, "no type " + tab)
    wrong = []
    for c in ["Drop"] + CAPS:
        h = q.holds(f, "dync::traits::Has" + c, ty)
        if h and c not in caps:
            wrong.append("supports %s, which is not listed" % c)
        if not h and c in caps:
            wrong.append("does not support %s" % c)
    up = t.up(fam) | {t.path}
    for o in fam:
        if o.rsplit("::", 1)[0] == t.path.rsplit("::", 1)[0] and "::" in o or o == t.path:
            p = o.rsplit("::", 1)
            h = q.holds(f, "::".join(p[:-1] + ["Has" + p[-1]]), ty)
            if h != (o in up):
                wrong.append("%s Has%s" % ("implements" if h else "does not implement", p[-1]))
    h = "::".join(t.path.split("::")[:-1] + ["Has" + t.path.split("::")[-1]])
    anyv = next(x for x in q.fns if x["name"] == "any_table")
    for c in sorted(caps):
        if not q.holds(anyv, "dync::traits::Has" + c, "param:V", [["V", h]]):
            wrong.append("Has%s does not stand for %s" % (t.path.split("::")[-1], c))
    key = name + ": exactly the listed capabilities"
    if wrong:
        rep.violation(key, "; ".join(wrong), f["span"])
    else:
        rep.hold(key, ", ".join(sorted(caps)))
    # the table of a type exists only if the type implements the trait
    key = name + ": tables only for implementing types"
    el = tables.element(f)
    missing = [c for c in sorted(caps - {"Drop"}) if not q.holds(f, BOUND[c], "param:" + el)] + [u for u in sorted(up) if not q.holds(f, u, "param:" + el)]
    if missing:
        rep.violation(key, "a table is built for types that need not implement " + ", ".join(missing), f["span"])
    else:
        rep.hold(key, "requires " + ", ".join(sorted(up)))
    # the functions
    try:
        val, _ = q.ev.call(q.s.q(op="inst", d=f["d"], sub=[])["inst"], [])
        right(rep, name + ": each capability has the function of the type", slots(q, ty, val, caps), caps, f["span"])
    except Undec as x:
        return rep.undec(name, str(x))
    # conversions
    for b in sorted(caps) + sorted(t.up(fam)):
        bt = table(b) if b in fam else "dync::traits::%sVTable" % b
        key = "%s: conversion to %s" % (name, bt)
        g = next((x for (a, c), x in froms.items() if c == tab and re.sub("^dync::", "", a) == re.sub("^dync::", "", bt)), None)
        if g is None:
            rep.violation(key, "there is no such conversion", f["span"])
            continue
        bty = q.ty([bt])
        try:
            r, _ = q.ev.call(q.s.q(op="inst", d=g["d"], sub=[])["inst"], [val])
            bc = fam[b].caps(fam) if b in fam else {"Drop", b} | ({"PartialEq"} if b == "Eq" else set())
            right(rep, key, slots(q, bty, r, bc), bc, g["span"])
        except Undec as x:
            rep.undec(key, str(x))
