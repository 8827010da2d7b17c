"""Obligations of the properties decided by the path-sensitive analysis of every safe public function (flow.py)."""
import re
import session, report, flow, dispatch

# kind of a finding -> (properties it breaks, what the obligation says)
KINDS = {
    "type": ("C01", "typed access only with the stored type"),
    "mixed": ("C02 C09", "erased objects hold elements of the type they describe"),
    "vtab": ("C08 C02", "table functions run only on elements of their own type"),
    "meta": ("C09 C08 C04", "type, size, alignment and table describe the bytes"),
    "bounds": ("C03 C04", "accesses stay inside the live elements"),
    "uninit": ("C03 C04 C05", "no memory without a value is exposed or used"),
    "whole": ("C04 C03", "accesses start at element boundaries"),
    "double": ("C05", "no value is dropped twice"),
    "dropped": ("C05", "no dropped value is used"),
    "stale": ("C05", "no dropped value stays reachable"),
    "twice": ("C05 C17", "no value has two owners"),
    "leak": ("C05", "no value is leaked"),
    "leakmem": ("C07 C05", "no storage is leaked"),
    "layout": ("C07 C09", "storage is released, resized and handed over with its own layout"),
    "free": ("C07 C05", "storage is released once, by its owner"),
    "uaf": ("C07 C03", "released storage is not used"),
    "s-access": ("C01", "typed operations take effect for the stored type, and for it only"),
    "s-pair": ("C02", "operations on two erased objects take effect for identical types, and for them only"),
    "s-pos": ("C04 C18", "the elements returned and left behind are the ones at the positions named"),
    "s-range": ("C03", "positions inside are accepted, positions outside are refused"),
    "s-clone": ("C17", "copies are element-wise clones and leave the original as it was"),
    "s-meta": ("C09", "reported type, size and alignment are those of the elements"),
    "s-eq": ("C10", "equal exactly if types, lengths and corresponding elements are equal"),
    "s-hash": ("C10", "the hash takes in every element, once and in order"),
    "s-fmt": ("C21", "every element is formatted once, in order, by its own function"),
    "s-cost": ("C20", "storage grows by a factor, and conversions hand it on"),
    "zst": ("C16", "no erased vector or slice of zero-sized elements"),
    "align": ("C14", "every alignment is handled by storage of that size and alignment, and alike"),
    "s-num": ("C15", "elements are treated as numbers of their own type, all of them, for every listed type"),
}
# findings in these functions also break the property
ALSO = {"C15": ("type", re.compile(r"cast_into_vec|::fmt$|Display"))}
PANIC = {"double", "dropped", "stale", "twice", "uninit", "free", "uaf", "layout", "bounds", "meta", "mixed", "whole", "vtab", "type"}


def props(kind, unw, root=""):
    s = set(KINDS.get(kind, ("", ""))[0].split())
    if unw and kind in PANIC:
        s.add("C06")
    for q, (k, rx) in ALSO.items():
        if k == kind and rx.search(root):
            s.add(q)
    return s


def collect(prop, rep, results, label=""):
    """turns the results of the flow analysis into obligations of prop"""
    mine = [k for k in KINDS if prop in props(k, prop == "C06")]
    steps = funcs = 0
    allf = set()
    for r in results:
        root = r["root"] + label
        if r.get("crash") and not r["events"]:
            rep.undec("analysis of " + root, "; ".join(r["undecs"])[:300])
        hit = other = False
        for k, v in r["events"].items():
            kind, _, site, unw = k.split("|")
            if prop in props(kind, unw, root):
                if prop == "C06" and not unw:
                    other = True
                    continue
                hit = True
                rep.violation("%s%s: %s" % (root, " after a panic" if unw else "", KINDS[kind][1]), v["msg"] + (" in " + site if site != "?" else ""), v["where"] or r["span"], v["path"])
            else:
                other = True
        n = sum(r.get("checked", {}).get(k, 0) for k in mine)
        if prop == "C14":
            n = len(r.get("arms", ()))
        if prop == "C06":
            n = n if r.get("unwinds") else 0
        if prop == "C16" and r["undecs"] and not re.search(r"vec_|slice", root.split(" as ")[0]):
            continue
        steps += r.get("steps", 0)
        allf |= set(r["funcs"])
        if prop == "C14" and not n:
            continue
        if prop == "C16" and not n:
            if not r["exits"] and r.get("unwinds") and not r["undecs"] and not r["events"]:
                rep.hold(root, "no path returns; %d paths end in a panic" % r["unwinds"])
                continue
        if hit or not (n or r["undecs"]) or (not n and prop not in ("C06",) and all(k.startswith("s-") for k in mine)):
            continue
        key = root
        if r["undecs"]:
            rep.undec(key, "; ".join(sorted(r["undecs"]))[:300])
        elif other:
            rep.undec(key, "a path ends in a finding of another property")
        else:
            rep.hold(key, "%d %s on %d exits%s" % (n, "dispatches" if prop == "C14" else "checks", r["exits"], " and %d unwindings" % r["unwinds"] if r.get("unwinds") else ""))
    a = rep.notes.setdefault("analysed", {})
    a["entry_points" + label] = len(results)
    a["functions_analysed" + label] = len(allf)
    a["basic_block_steps" + label] = steps
    a["exits" + label] = sum(r["exits"] for r in results)
    a["unwindings" + label] = sum(r.get("unwinds", 0) for r in results)
    rep.notes["rules"] = {k: KINDS[k][1] for k in mine}


def arms(b, rep):
    """C14: the arms of every dispatch over alignments"""
    s = b.session()
    n = 0
    for f, d in flow.dispatches(s):
        have = sorted(d.canon)
        limit = dispatch.STACK if d.stack() else dispatch.LIMIT
        miss = [1 << k for k in range(limit + 1) if 1 << k not in d.canon]
        n += len(have)
        key = "dispatch in " + f["path"]
        if miss:
            rep.violation(key + ": every alignment has code of its own", "no arm for alignment %s; arms are %s" % (", ".join(map(str, miss[:6])), have), d.span or f["span"])
        else:
            rep.hold(key + ": every alignment has code of its own", "%d arms, 1 to 2^%d" % (len(have), len(have) - 1))
        if d.diverges():
            rep.hold(key + ": other alignments are refused", "the default arm never returns")
        else:
            rep.violation(key + ": other alignments are refused", "the default arm goes on as if the alignment were supported", d.span or f["span"])
        rep.hold(key + ": arms", "same code up to the chunk type: %s; explored one by one: %s" % (d.main, d.odd or "none"))
    s.close()
    rep.notes["arms_compared"] = n


# what is done to an element -> properties
NOTES = {"drop": ("C05",), "drop of a named type": ("C05",), "clone": ("C17",), "clone_into_raw": ("C17",), "clone_from": ("C17", "C05"),
         "eq": ("C10",), "hash": ("C10",), "fmt": ("C21",)}


def zeros(prop, rep, normal, zs, label):
    """single values without bytes: whatever is done to a value of positive size must be done to them as well"""
    by = {r["root"]: r for r in normal}
    for z in zs:
        a = by.get(z["root"])
        if not a or not z.get("sigs") or not a.get("sigs"):
            continue
        key = "%s%s [zero-sized]: treated like other values" % (z["root"], label)
        if a["undecs"] or a["events"]:
            continue
        used = {p for s in a["sigs"] + z["sigs"] for k, n in s[1] for p in NOTES.get(k, ())} or {"C05"}
        if prop not in used:
            continue
        bad = None
        for r, c, same in z["sigs"]:
            cs = []
            for r2, c2, same2 in a["sigs"]:
                m = {(x, y): v for x, y, v in same2}
                if r == r2 and all(v is None or m.get((x, y)) in (v, None) for x, y, v in same):
                    d = [k for k in NOTES if dict(c).get(k, 0) != dict(c2).get(k, 0)]
                    cs.append((len(d), d, dict(c2)))
            if not cs:
                continue        # an outcome of its own: judged by the rules for results
            d, c2 = min(cs, key=lambda x: x[0])[1:]
            mine = [k for k in d if prop in NOTES[k]]
            if mine:
                k = mine[0]
                bad = "for a value of size zero, %s happens %d times instead of %d" % (k if " " in k else "the table's %s function" % k, dict(c).get(k, 0), c2.get(k, 0))
        if bad:
            rep.violation(key, bad, z["span"])
        else:
            rep.hold(key, "%d outcomes, each with the same calls as for values of positive size" % len(z["sigs"]))


def flows(thorough):
    b = session.Build(session.REPO, "dync", ["--all-features"], "all")
    if not thorough:
        yield "", b, {"seconds": 40}
        return
    yield "", b, {"seconds": 120, "reps": (8, 1, 32, 4096)}
    yield " [debug assertions]", b, {"debug": True, "seconds": 120}


def check(prop, technique, rule, trusted, extra=None):
    def go(_):
        rep = report.Report(prop, technique, rule, trusted)
        for label, b, opt in flows(rep.tier == "thorough"):
            if prop == "C16":
                opt["zero"] = True
            res = flow.run(b, opt)
            collect(prop, rep, res, label)
            if prop in ("C05", "C10", "C17", "C21"):
                zeros(prop, rep, res, flow.run(b, dict(opt, zero=True, seconds=20), flow.SINGLE.search), label)
            if prop in ("C01", "C04", "C08", "C09"):
                # single values may be of zero size: what describes them is checked for that size as well
                zs = flow.run(b, dict(opt, zero=True, seconds=20), flow.SINGLE.search)
                for r in zs:
                    r["events"] = {k: v for k, v in r["events"].items() if k.split("|")[0] in ("meta", "s-meta", "type")}
                    r["undecs"], r["crash"], r["checked"] = {}, None, {k: n for k, n in r.get("checked", {}).items() if k in ("meta", "s-meta", "type")}
                collect(prop, rep, zs, label + " [zero-sized]")
            if extra and not label:
                extra(b, rep)
        return rep.finish()
    return go
