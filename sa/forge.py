"""C13: what safe code can reach.  Decided from visibilities, signatures and trait bounds."""
from regions import Regions
import threads


def isbyte(t):
    return (t["k"] == "prim" and t["s"] == "u8") or (
        t["k"] == "adt" and t["path"].endswith("MaybeUninit") and t["args"] and isbyte(t["args"][0]))


class Forge:
    def __init__(self, sess):
        self.s = sess
        self.items = sess.items()
        self.R = Regions(self.items)
        self.objs = threads.erased(self.items, self.R)
        self.er = {a["path"]: (v, k, a) for a, v, k in self.objs}
        # descriptors: local types that contain a TypeId
        self.desc = set()
        for _ in range(4):
            for a in self.items["adts"]:
                for v in a["variants"]:
                    for f in v["fields"]:
                        if self.mentions(f["t"], lambda t: t["k"] == "adt" and (
                                t["path"].endswith("any::TypeId") or t["path"] in self.desc)):
                            self.desc.add(a["path"])
        self.storage = {a["path"] for a in self.items["adts"] if a["path"] in self.desc and any(
            f["t"]["k"] == "ptr" or (f["t"]["k"] == "adt" and f["t"]["path"].endswith("NonNull"))
            for v in a["variants"] for f in v["fields"])}

    def mentions(self, t, p):
        if not isinstance(t, dict):
            return False
        if p(t):
            return True
        for f in ("ts", "args"):
            for x in t.get(f) or []:
                if self.mentions(x, p):
                    return True
        if isinstance(t.get("t"), dict) and self.mentions(t["t"], p):
            return True
        for b in t.get("bounds") or []:
            if b["k"] == "proj" and self.mentions(b["t"], p):
                return True
        return False

    def is_erased(self, t):
        return t["k"] == "adt" and (t["path"] in self.er)

    def outside(self, t, name):
        """the type parameter occurs in t other than inside an erased object"""
        if not isinstance(t, dict) or (t["k"] == "adt" and t["path"] in self.er):
            return False
        if t["k"] == "param" and t["name"] == name:
            return True
        return any(self.outside(x, name) for f in ("ts", "args") for x in t.get(f) or []) or \
            (isinstance(t.get("t"), dict) and self.outside(t["t"], name))

    def raw_outside(self, t):
        """raw ingredient reachable in t without going through an erased object"""
        if not isinstance(t, dict):
            return None
        k = t["k"]
        if k == "adt":
            if t["path"] in self.er:
                return None
            if t["path"].endswith("any::TypeId"):
                return "a type identity"
            if t["path"].split("::")[-1] == "ElemInfo":
                return "an element descriptor"
            if t["path"] in self.storage:
                return "raw storage"
            if isbyte(t):
                return "raw bytes"
        if k in ("slice", "array", "ptr") and isinstance(t.get("t"), dict) and isbyte(t["t"]):
            return "raw bytes"
        for f in ("ts", "args"):
            for x in t.get(f) or []:
                r = self.raw_outside(x)
                if r:
                    return r
        if isinstance(t.get("t"), dict):
            return self.raw_outside(t["t"])
        return None


def run(sess, rep):
    F = Forge(sess)
    items = F.items
    rep.notes["erased_types"] = sorted(F.er)
    rep.notes["descriptor_types"] = sorted(F.desc)

    def q(**kw):
        r = sess.q(op="holds", **kw)
        return None if "error" in r else r["holds"]

    # (a) fields of erased objects and descriptors
    for a in items["adts"]:
        if not a["reachable"] or not (a["path"] in F.er or a["path"] in F.desc):
            continue
        if a["path"].split("::")[-1] == "Error":
            continue
        key = "fields of %s are not public" % a["path"]
        pub = ["%s" % f["name"] for v in a["variants"] for f in v["fields"] if f["pub"]]
        if a["path"] in F.desc and a["path"] not in F.er and not a["exported"] and pub and a["path"].split("::")[-1] == "ElemInfo":
            # reachable only through other types' fields; it can be read but a user cannot name it to build one.
            # its parts matter only when writable through an erased object, which the other rules exclude
            rep.hold(key, "the type is not exported (its fields are readable, not constructible by name)")
            continue
        if pub:
            rep.violation(key + ": " + ", ".join(sorted(set(pub))), "public: " + ", ".join(pub) + "; safe code can combine parts that do not belong together", a["span"])
        else:
            rep.hold(key, "%d fields, all private" % sum(len(v["fields"]) for v in a["variants"]))

    gens = lambda f: [n for n, k in f["generics"] if k == "ty"]
    copyfam = set()
    hdp = next((t["path"] for t in items["traits"] if t["path"].endswith("HasDrop")), None)
    for p, (v, k, a) in F.er.items():
        # a type whose operations are available without a drop function treats its elements as plain copies
        inh = [im for im in items["impls"] if im["self_adt"] == p and not im["trait"] and im["items"]]
        nodrop = []
        for im in inh:
            t = sess.types.get(im["ty"])
            gens_ = [n for n, k2 in a["generics"] if k2 == "ty"]
            tyargs = (t or {}).get("args", [])[-len(gens_):]
            if len(tyargs) != len(gens_) or hdp is None:
                continue
            if q(d=im["d"], trait=hdp, ty=tyargs[gens_.index(v)]) is False:
                nodrop += [m for m, _ in im["items"]]
        own = k == "owner" or any(f["impl_adt"] == p and not f["impl_trait"] and f["name"] in nodrop
                                  and not f["unsafe"] and F.mentions(f["rout"], lambda u: u["k"] == "adt" and u["path"] == p)
                                  for f in items["fns"])
        if nodrop and own:
            copyfam.add(p)
    rep.notes["copy_types"] = sorted(copyfam)

    for f in items["fns"]:
        if not f["reachable"] or f["unsafe"]:
            continue
        path = f["path"]
        rout = f["rout"]
        takes_erased = any(F.mentions(t, F.is_erased) for t in f["rin"])
        gives_erased = F.mentions(rout, F.is_erased)
        # (b) raw write access to what an erased object holds
        key = "%s hands out no raw write access" % path
        if takes_erased:
            bad = []

            def look(t):
                if t["k"] == "ref" and t["mut"]:
                    if F.mentions(t["t"], lambda u: u["k"] in ("slice", "array") and isbyte(u["t"])) and not F.mentions(t["t"], F.is_erased):
                        bad.append("&mut raw bytes of the elements")
                    u = t["t"]
                    if u["k"] == "param":
                        vs = {v for (v, k, a) in F.er.values()}
                        if u["name"] in vs or u["name"] in ("U",):
                            bad.append("&mut to the function table")
                    if u["k"] == "adt" and u["path"] not in F.er and (u["path"] in F.storage or (u["path"] in F.desc and u["path"] not in F.er)):
                        bad.append("&mut " + u["path"])
                for g in ("ts", "args"):
                    for x in t.get(g) or []:
                        if isinstance(x, dict):
                            look(x)
                if isinstance(t.get("t"), dict):
                    look(t["t"])
                for b in t.get("bounds") or []:
                    if b["k"] == "proj":
                        look(b["t"])
            look(rout)
            if bad:
                rep.violation(key, "a safe function returns " + ", ".join(sorted(set(bad))), f["span"])
            else:
                rep.hold(key)
        # (c) assembling an erased object (or its parts) from raw ingredients
        if gives_erased or F.mentions(rout, lambda t: t["k"] == "adt" and t["path"] in F.storage):
            raws = []
            for t in f["rin"]:
                r = F.raw_outside(t)
                if r:
                    raws.append(r)
            selfraw = f["impl_adt"] in F.storage
            key = "%s builds no erased object from raw parts" % path
            if raws and not selfraw:
                rep.violation(key, "a safe function makes an erased object from " + ", ".join(sorted(set(raws))), f["span"])
            else:
                rep.hold(key)
        # (d) only Copy elements enter bytewise-duplicating containers
        outcopy = F.mentions(rout, lambda t: t["k"] == "adt" and t["path"] in copyfam)
        selfcopy = f["impl_adt"] in copyfam
        outother = F.mentions(rout, lambda t: t["k"] == "adt" and t["path"] in F.er and t["path"] not in copyfam)
        if outcopy or selfcopy:
            tps = []
            vs = {v for (v, k, a) in F.er.values()}
            tables = set()
            for t in list(f["rin"]) + [rout]:
                def tab(u):
                    if u["k"] == "adt" and u["path"] in F.er:
                        v, k, a = F.er[u["path"]]
                        for (gn, gk), x in zip(a["generics"], u["args"]):
                            if gn == v and x["k"] == "param":
                                tables.add(x["name"])
                    return False
                F.mentions(t, tab)
            for n in gens(f):
                if n in tables or n.startswith("impl ") or n in vs:
                    continue
                # a table type of another object
                if any(p.startswith(n + ": ") and ("VTable" in p or "Has" in p.split("::")[-1]) for p in f["preds"]):
                    continue
                # T flows in by value/slice/vec, or the function builds a fresh container for T
                inflow = any(F.mentions(t, lambda u, n=n: u["k"] == "param" and u["name"] == n) for t in f["rin"])
                fresh = rout["k"] == "adt" and rout["path"] in copyfam and not takes_erased
                if not (inflow or fresh):
                    continue
                # typed containers that only receive copies of the elements are not an inflow
                onlyout = all((not F.mentions(t, lambda u, n=n: u["k"] == "param" and u["name"] == n)) or
                              (t["k"] == "ref" and t["mut"] and t["t"]["k"] == "adt" and t["t"]["path"].endswith("::Vec"))
                              for t in f["rin"])
                fnlike = any(p.startswith(n + ": ") and ("ops::Fn" in p or "ops::function::Fn" in p or "Hasher" in p or "SliceIndex" in p or "IntoIterator" in p or "ScaleRange" in p) for p in f["preds"])
                if (onlyout and not fresh) or fnlike:
                    # copying out of a bytewise container also needs Copy; the container guarantees it
                    continue
                tps.append(n)
            for n in tps:
                key = "%s admits only Copy elements (%s)" % (path, n)
                h = q(d=f["d"], trait="core::marker::Copy", ty="param:" + n)
                if h is None:
                    rep.undec(key, "the query could not be asked")
                elif h:
                    rep.hold(key, "%s: Copy follows from the bounds" % n)
                else:
                    rep.violation(key, "%s need not be Copy, but the container duplicates its elements bytewise" % n, f["span"])
        if outcopy and not selfcopy:
            fromdrop = [t for t in f["rin"] if F.mentions(t, lambda u: u["k"] == "adt" and u["path"] in F.er and u["path"] not in copyfam)]
            fromcopy = [t for t in f["rin"] if F.mentions(t, lambda u: u["k"] == "adt" and u["path"] in copyfam)]
            key = "%s does not turn dropping containers into copying ones" % path
            if fromdrop and not fromcopy:
                rep.violation(key, "elements with destructors would be duplicated bytewise", f["span"])
            else:
                rep.hold(key)
    # tables without a drop function only for Copy types
    hd = [t["path"] for t in items["traits"] if t["path"].endswith("HasDrop")]
    for im in items["impls"]:
        if im["trait"] and im["trait"].endswith("vtable::VTable") and hd:
            tp = im["trait_ref"].rsplit("VTable<", 1)[1].split(">")[0]
            key = "%s has a drop function or T: Copy" % im["trait_ref"]
            d, c = q(d=im["d"], trait=hd[0], ty=im["ty"]), q(d=im["d"], trait="core::marker::Copy", ty="param:" + tp)
            if d is None or c is None:
                rep.undec(key, "the query could not be asked")
            elif d or c:
                rep.hold(key)
            else:
                rep.violation(key, "elements with destructors could be stored with a table that cannot drop them", im["span"])
        if im["trait"] and im["trait"].endswith("CopyElem"):
            key = "%s implies Copy and 'static" % im["trait_ref"]
            c, a = q(d=im["d"], trait="core::marker::Copy", ty=im["ty"]), q(d=im["d"], trait="core::any::Any", ty=im["ty"])
            if c and a:
                rep.hold(key)
            elif c is None or a is None:
                rep.undec(key, "the query could not be asked")
            else:
                rep.violation(key, "the bound on element types of copying containers is too weak", im["span"])
    # (e) safe traits the unsafe code relies on, which users may implement
    for t in items["traits"]:
        if not t["exported"] or t["unsafe"]:
            continue
        blanket = any(im["trait"] == t["path"] and any(im["self"] == g[0] for g in im["generics"]) for im in items["impls"])
        ms = [f for f in items["fns"] if f["trait"] == t["path"] and not f["impl_trait"]]
        raw = []
        for f in ms:
            if f["unsafe"]:
                continue
            if F.mentions(f["rout"], lambda u: u["k"] == "fnptr" and "unsafe" in u["s"]):
                raw.append(f["name"] + " supplies a function called on stored elements")
            elif F.mentions(f["rout"], lambda u: u["k"] in ("slice",) and isbyte(u["t"])):
                # matters where a safe function makes an erased object out of a user's implementor
                for g in items["fns"]:
                    if not g["reachable"] or g["unsafe"] or not F.mentions(g["rout"], F.is_erased):
                        continue
                    ps = [x.split(":")[0] for x in g["preds"] if x.endswith(": " + t["path"])]
                    if any(F.outside(r, n) for r in g["rin"] for n in ps):
                        raw.append(f["name"] + " supplies the bytes of an erased value made by " + g["path"])
            elif f["name"] == "build_vtable":
                raw.append(f["name"] + " supplies the function table of an element type")
        key = "trait %s cannot make unsafe code misbehave" % t["path"]
        if raw and not blanket:
            rep.violation(key, "it is safe to implement by users, but " + "; ".join(raw), t.get("span"))
        else:
            rep.hold(key, "blanket-implemented" if blanket else "supplies nothing unsafe code relies on")
