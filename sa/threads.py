"""C11: Send/Sync of erased objects, decided by asking the compiler's trait solver."""
from regions import Regions, reg

SEND, SYNC = "core::marker::Send", "core::marker::Sync"


def vparam(adt, R, seen=()):
    """the type parameter of an ADT that stands for its function table (flows to Meta<..>/VTableRef)"""
    gens = [n for n, k in adt["generics"] if k == "ty"]

    def find(t, intab):
        k = t["k"]
        if k == "param":
            return t["name"] if intab and t["name"] in gens else None
        if k == "adt" and t.get("local"):
            sub = R.adts.get(t["path"])
            if sub is not None and t["path"] not in seen:
                name = t["path"].split("::")[-1]
                if name in ("Meta", "VTableRef"):
                    for a in t["args"]:
                        if a["k"] != "lt":
                            r = find(a, True)
                            if r:
                                return r
                else:
                    p = vparam(sub, R, seen + (t["path"],))
                    for (gn, gk), a in zip(sub["generics"], t["args"]):
                        if gn == p:
                            r = find(a, True)
                            if r:
                                return r
            return None
        if k == "adt" and t["path"] == "alloc::boxed::Box" and t["args"][0]["k"] == "param":
            return find(t["args"][0], True)
        for f in ("ts", "args"):
            for x in t.get(f) or []:
                r = find(x, intab)
                if r:
                    return r
        if isinstance(t.get("t"), dict):
            return find(t["t"], intab)
        return None
    for v in adt["variants"]:
        for f in v["fields"]:
            r = find(f["t"], False)
            if r:
                return r
    return None


def holds_bytes(adt, R, byteparams, seen=()):
    """'owner' | 'shared' | 'mut' | None: how the type holds raw bytes of erased elements"""
    best = None
    order = {None: 0, "shared": 1, "mut": 2, "owner": 3}

    def mx(a, b):
        return a if order[a] >= order[b] else b

    def isbyte(t):
        return t["k"] == "prim" and t["s"] in ("u8",) or (
            t["k"] == "adt" and t["path"].endswith("MaybeUninit") and t["args"] and isbyte(t["args"][0]))

    def walk(t, mode):
        k = t["k"]
        if k == "ref":
            m = "mut" if t["mut"] else "shared"
            if mode in ("shared", "mut"):
                m = "shared" if "shared" in (mode, m) else "mut"
            return walk(t["t"], m)
        if k == "ptr":
            return walk(t["t"], "owner")
        if k == "param":
            return mode if t["name"] in byteparams else None
        if isbyte(t):
            return mode
        if k in ("slice", "array"):
            return walk(t["t"], mode)
        if k == "tuple":
            r = None
            for x in t["ts"]:
                r = mx(r, walk(x, mode))
            return r
        if k == "adt":
            if t["path"].endswith("::VecVoid") or t["path"] == "VecVoid":
                return mode
            r = None
            if t.get("local"):
                sub = R.adts.get(t["path"])
                if sub is None or t["path"] in seen:
                    return None
                for n, ft in R.fields(t):
                    # fields are already substituted
                    r = mx(r, walk2(ft, mode, seen + (t["path"],)))
                return r
            for a in t["args"]:
                if a["k"] != "lt":
                    r = mx(r, walk(a, mode))
            return r
        return None

    def walk2(t, mode, s):
        if len(s) > 10:
            return None
        return walk(t, mode)
    for v in adt["variants"]:
        for f in v["fields"]:
            best = mx(best, walk(f["t"], "owner"))
    return best


def need(kind, marker):
    if marker == SYNC:
        return "HasSync"
    return "HasSync" if kind == "shared" else "HasSend"


def caps(items):
    return [t["path"] for t in items["traits"] if t["path"].split("::")[-1].startswith("Has") and not t["path"].endswith("Bytes") and t["path"].split("::")[-1][3:4].isupper()]


def erased(items, R):
    out = []
    for a in items["adts"]:
        if not a["reachable"]:
            continue
        v = vparam(a, R)
        if v is None or a["path"].split("::")[-1] in ("Meta", "VTableRef"):
            continue
        bp = [n for n, k in a["generics"] if k == "ty" and n != v]
        k = holds_bytes(a, R, bp)
        if k:
            out.append((a, v, k))
    return out


def run(sess, rep):
    items = sess.items()
    R = Regions(items)
    allcaps = caps(items)
    byname = {p.split("::")[-1]: p for p in allcaps}
    if "HasSend" not in byname or "HasSync" not in byname:
        rep.undec("capabilities", "the capability traits HasSend/HasSync were not found")
        return
    for n in ("HasSend", "HasSync"):
        t = [t for t in items["traits"] if t["path"] == byname[n]][0]
        k = "trait %s is unsafe to implement" % n
        if t["unsafe"]:
            rep.hold(k)
        else:
            rep.violation(k, "safe code may claim the capability for any function table", t.get("span"))
    objs = erased(items, R)
    rep.notes["erased_types"] = ["%s (%s, table parameter %s)" % (a["path"], k, v) for a, v, k in objs]

    def q(**kw):
        r = sess.q(op="holds", **kw)
        if "error" in r:
            print(r,kw)
            return None
        return r["holds"]

    STD = [SEND, SYNC, "core::marker::Copy", "core::clone::Clone"]
    for a, v, kind in objs:
        for m in (SEND, SYNC):
            cap = need(kind, m)
            extra = [[v, t] for t in STD] + [[v, p] for p in allcaps if p != byname[cap]]
            key = "%s is %s only with %s" % (a["path"], m.split("::")[-1], cap)
            h = q(d=a["d"], extra=extra, trait=m)
            if h is None:
                rep.undec(key, "the query could not be asked")
            elif h:
                rep.violation(key, "a%s of elements whose table does not provide %s is %s" % (
                    {"owner": "n owner", "shared": " shared view", "mut": " mutable view"}[kind], cap, m.split("::")[-1]), a["span"])
            else:
                rep.hold(key, "with every other capability assumed, %s: %s does not hold" % (a["path"], m))
    # impls, including those for particular tables
    kinds = {a["path"]: (v, k, a) for a, v, k in objs}
    for im in items["impls"]:
        if im["trait"] not in (SEND, SYNC) or im["neg"]:
            continue
        if im["self_adt"] in kinds:
            v, kind, a = kinds[im["self_adt"]]
            cap = need(kind, im["trait"])
            key = "impl %s requires %s" % (im["trait_ref"], cap)
            t = sess.types.get(im["ty"])
            tyargs = [x for x in (t or {}).get("args", [])]
            gens = [n for n, k in a["generics"] if k == "ty"]
            if t is None or len(tyargs) != len(gens):
                # args may omit lifetimes
                tyargs = tyargs[-len(gens):]
            va = tyargs[gens.index(v)]
            h = q(d=im["d"], trait=byname[cap], ty=va)
            if h is None:
                rep.undec(key, "the query could not be asked")
            elif h:
                rep.hold(key, "the impl's bounds imply it")
            else:
                rep.violation(key, "the impl does not require %s of the function table" % cap, im["span"])
    # tables which claim a capability must only be built for types that have it
    for im in items["impls"]:
        if not im["trait"] or not im["trait"].endswith("vtable::VTable") or im["neg"]:
            continue
        tp = im["trait_ref"].rsplit("VTable<", 1)[1].split(">")[0]
        for cap, m in (("HasSend", SEND), ("HasSync", SYNC)):
            key = "%s claims %s only for elements that are %s" % (im["trait_ref"], cap, m.split("::")[-1])
            c = q(d=im["d"], trait=byname[cap], ty=im["ty"])
            e = q(d=im["d"], trait=m, ty="param:" + tp)
            if c is None or e is None:
                rep.undec(key, "the query could not be asked")
            elif c and not e:
                rep.violation(key, "the table claims %s, but it is built for element types without %s" % (cap, m), im["span"])
            else:
                rep.hold(key, "claims %s: %s" % (cap, c))
    # conversions between tables may not add a claim
    for im in items["impls"]:
        if im["trait"] != "core::convert::From" or im["neg"]:
            continue
        src = None
        for mname, d in im["items"]:
            if mname == "from":
                f = [f for f in items["fns"] if f["d"] == d]
                if f and f[0]["in"]:
                    src = f[0]["in"][0]
        if src is None:
            continue
        for cap in ("HasSend", "HasSync"):
            c = q(d=im["d"], trait=byname[cap], ty=im["ty"])
            if not c:
                continue
            s = q(d=im["d"], trait=byname[cap], ty=src)
            key = "%s does not add %s" % (im["trait_ref"], cap)
            if s:
                rep.hold(key)
            else:
                rep.violation(key, "the source table does not claim %s, the result does" % cap, im["span"])
    # iterators and other opaque results carry their items' restrictions
    for f in items["fns"]:
        if not f["reachable"] or f["unsafe"] or not f["rout"]:
            continue
        t = f["rout"]
        if t["k"] != "alias" or not t.get("opaque"):
            continue
        its = [b["t"] for b in t.get("bounds") or [] if b["k"] == "proj"]
        for it in its:
            if it["k"] != "adt" or it["path"] not in kinds:
                continue
            v, kind, a = kinds[it["path"]]
            gens = [n for n, k in f["generics"] if k == "ty"]
            va = [x for x in it["args"] if x["k"] == "param" and x["name"] in gens]
            if not va:
                continue
            for m in (SEND, SYNC):
                cap = need(kind, SEND)  # whoever holds the iterator may take items from it
                if m == SYNC:
                    continue
                extra = [[va[-1]["name"], x] for x in STD] + [[va[-1]["name"], p] for p in allcaps if p != byname[cap]]
                key = "the iterator of %s is Send only with %s" % (f["path"], cap)
                h = q(d=f["d"], extra=extra, trait=m, ty="out")
                if h is None:
                    rep.undec(key, "the query could not be asked")
                elif h:
                    rep.violation(key, "the returned iterator is Send although its items are not", f["span"])
                else:
                    rep.hold(key)


def total(b, rep):
    """C10: total equality only for element types that provide it"""
    s = b.session()
    items = s.items()
    R = Regions(items)
    allcaps = caps(items)
    cap = next((p for p in allcaps if p.split("::")[-1] == "HasEq"), None)
    if cap is None:
        rep.undec("total equality", "the capability trait HasEq was not found")
        return s.close()
    EQ = "core::cmp::Eq"

    def q(**kw):
        return s.q(op="holds", **kw).get("holds")

    def put(key, bad, known, what, span):
        if known is None:
            rep.undec(key, "the query could not be asked")
        elif bad:
            rep.violation(key, what, span)
        else:
            rep.hold(key, "trait solver")

    for a, v, kind in erased(items, R):
        extra = [[v, "core::marker::Copy"], [v, "core::clone::Clone"]] + [[v, p] for p in allcaps if p != cap]
        h = q(d=a["d"], extra=extra, trait=EQ)
        put("%s has total equality only with HasEq" % a["path"], h, h, "an erased object is Eq although its elements need not be", a["span"])
    for im in items["impls"]:
        if not im["trait"] or im["neg"]:
            continue
        if im["trait"].endswith("vtable::VTable"):
            tp = im["trait_ref"].rsplit("VTable<", 1)[1].split(">")[0]
            c, e = q(d=im["d"], trait=cap, ty=im["ty"]), q(d=im["d"], trait=EQ, ty="param:" + tp)
            put("%s claims HasEq only for elements with total equality" % im["trait_ref"], c and not e, None if c is None or e is None else True,
                "the table claims HasEq, but it is built for element types without Eq", im["span"])
        elif im["trait"] == "core::convert::From":
            ds = [d for n, d in im["items"] if n == "from"]
            f = [f for f in items["fns"] if f["d"] in ds]
            if f and f[0]["in"] and q(d=im["d"], trait=cap, ty=im["ty"]):
                e = q(d=im["d"], trait=cap, ty=f[0]["in"][0])
                put("%s does not add HasEq" % im["trait_ref"], not e, e, "the source table does not claim HasEq, the result does", im["span"])
    s.close()
