"""Runs the MIR analysis from every safe public function, in parallel."""
import multiprocessing as mp, os, re, sys, time, traceback
import session, eng, models, world, specs, dispatch
from dom import *

RANGES = [["core::ops::range::" + r, "usize"] for r in ("Range", "RangeTo", "RangeFrom", "RangeInclusive", "RangeToInclusive")] + \
    ["core::ops::range::RangeFull"]
STORES = [["box", ["slice", ["maybe", "u8"]]], ["maybe", "usize"]]
SKIP = ("(dyn traits::HasDrop",)


def param_id(s, f, name):
    for i, t in s.types.items():
        if t["k"] == "param" and t["s"] == name:
            return i
    return None


def subs(s, f):
    """substitutions of parameters that range over a known set of types"""
    out = [("", [])]
    for name, kind in f["generics"]:
        if kind not in ("ty", "impl"):
            continue
        b = [x[len(name) + 2:] for x in f["preds"] if x.startswith(name + ": ")]
        opts = None
        if any(x.startswith("core::slice::index::SliceIndex<") or x.startswith("index_slice::ScaleRange") for x in b):
            opts = RANGES
        elif any(x.startswith("copy_value::GetBytes") for x in b):
            opts = STORES
        elif any(x.startswith("core::convert::Into<meta::Meta<") for x in b):
            v = param_id(s, f, "V")
            opts = [["meta::Meta", ["vtable::VTableRef", v]]]
        elif any(x.startswith("core::convert::Into<value::ValueRef<") for x in b):
            v = param_id(s, f, "V")
            opts = [["value::ValueRef", v]]
        if opts:
            out = [(n + " " + short(o), x + [[name, o]]) for n, x in out for o in opts]
    return out


def short(o):
    while isinstance(o, list):
        o = o[0] if o[0] not in ("box", "maybe") else {"box": "boxed", "maybe": "inline"}[o[0]]
    return str(o).rsplit("::", 1)[-1]


def roots(s):
    out = []
    for f in s.items()["fns"]:
        if not f["reachable"] or f["unsafe"] or not f["has_body"]:
            continue
        if any(x in f["path"] for x in SKIP):
            continue
        for n, sub in subs(s, f):
            out.append((f["d"], f["path"] + n, sub))
    return out


_S = None
_BY = None
_OPT = None


def init(build, opt):
    global _S, _BY, _OPT
    _S = build.session(opt.get("debug", False))
    _BY = {f["d"]: f for f in _S.items()["fns"]}
    _OPT = opt


SINGLE = re.compile(r"\bvalue::|copy_value::|Value")      # operations on single values


def one(root):
    d, name, _ = root
    f = _BY[d]
    t0 = time.time()
    r = {"root": name, "d": d, "exits": 0, "events": {}, "undecs": {}, "funcs": [], "steps": 0, "span": f["span"]}
    try:
        sub = dict(subs(_S, f)).get(name[len(f["path"]):], [])
        i = _S.q(op="inst", d=d, sub=sub)
        if "error" in i:
            r["undecs"] = {"instantiation: " + i["error"]: 1}
            return r
        e = eng.Eng(_S, models)
        hook = _OPT.get("hook")
        states = world.build(e, f, i, _OPT.get("zero", False))
        if states is None:
            r["undecs"] = {"no body": 1}
            return r
        d = specs.Driver(e, f, i, world.on_exit(i["out"]))
        e.on_exit = d.exit
        e.on_unwind = lambda eng, st: d.unwind(eng, st, world.on_unwind)
        e.noting = bool(SINGLE.search(name))
        e.reps, e.odd = _OPT.get("reps", (8, 32)), _OPT.get("odd", set())
        steps = 0
        for st in states:
            e.run(st, name, seconds=_OPT.get("seconds", 20))
            steps += e.steps
        e.confirm(states, name, _OPT.get("seconds", 20))
        e.small(states, name, _OPT.get("seconds", 20))
        r.update(sigs=sorted(e.sigs, key=repr), exits=e.dones, events={"|".join(k): v for k, v in e.events.items()}, undecs=e.undecs, funcs=sorted(e.funcs), steps=steps, states=len(states), checked=e.checked, unwinds=e.unwinds, arms=sorted(e.armsites))
    except Undec as x:
        r["undecs"] = {str(x): 1}
    except Exception as x:
        r["undecs"] = {"internal: %r %s" % (x, traceback.format_exc()[-600:]): 1}
        r["crash"] = True
    r["t"] = time.time() - t0
    return r


def dispatches(s):
    """every alignment dispatch of the crate: (function, Dispatch)"""
    e = eng.Eng(s, models)
    out = []
    for f in s.items()["fns"]:
        if f["has_body"]:
            i = s.q(op="inst", d=f["d"], sub=[])
            b = s.body(i["inst"]) if i.get("inst") is not None else None
            if b:
                out += [(f, d) for d in dispatch.find(e.tys, b).values()]
    return out


def odd_arms(s):
    return {k for f, d in dispatches(s) for k in d.odd}


def run(build, opt=None, only=None):
    opt = opt or {}
    s = build.session()
    rs = roots(s)
    opt["odd"] = odd_arms(s)
    s.close()
    if only:
        rs = [r for r in rs if only(r[1])]
    ctx = mp.get_context("fork")
    with ctx.Pool(8, initializer=init, initargs=(build, opt)) as pool:
        return list(pool.imap_unordered(one, rs, chunksize=1))


if __name__ == "__main__":
    t = time.time()
    b = session.Build(session.REPO, "dync", ["--all-features"], "all")
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    res = run(b, {"seconds": float(os.environ.get("SECS", "10")), "zero": bool(os.environ.get("ZERO"))}, lambda n: re.search(pat, n))
    import collections
    und, ev = collections.Counter(), []
    for r in sorted(res, key=lambda r: r["root"]):
        for k, v in r["undecs"].items():
            und[k] += 1
        for k, v in r["events"].items():
            ev.append((r["root"], k, v))
    clean = [r for r in res if not r["undecs"] and not r["events"]]
    print("roots", len(res), "clean", len(clean), "noexit", len([r for r in clean if not r["exits"]]), "time %.1f" % (time.time() - t))
    print("slow", sorted([(round(r.get("t", 0), 1), r["root"]) for r in res])[-8:])
    for k, n in und.most_common(70):
        print(n, k)
    print("EVENTS", len(ev))
    for r, k, v in ev[:60]:
        print(r, "|", k.split("|")[0], "|", v["msg"][:200], v["path"][:3])
    import json
    json.dump(res, open("/tmp/flow.json", "w"), indent=1, default=str)
