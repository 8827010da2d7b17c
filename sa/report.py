"""Obligations, findings and evidence of one check."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def nkey(k):
    """keys are compared without generic argument lists of path segments"""
    return re.sub(r"::<[^<>]*>", "", k)


class Report:
    """Collects obligations. Every obligation has a stable key (no line numbers)."""

    def __init__(self, prop, technique, rule, trusted=()):
        self.prop, self.technique, self.rule = prop, technique, rule
        self.trusted = list(trusted)
        self.t0 = time.time()
        self.ok = {}          # key -> short statement
        self.viol = {}        # key -> dict
        self.undecided = {}   # key -> reason
        self.notes = {}
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def hold(self, key, what=""):
        if key not in self.viol and key not in self.undecided:
            self.ok[key] = what

    def violation(self, key, what, where=None, path=None):
        if key not in self.viol:
            self.viol[key] = {"what": what, "where": where, "path": path or []}
        self.ok.pop(key, None)

    def undec(self, key, why):
        self.ok.pop(key, None)
        if key not in self.viol:
            self.undecided[key] = why

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        try:
            d = json.load(open(p))
        except FileNotFoundError:
            return {}
        return {nkey(e["key"]): e["what"] for e in d.get("known", []) if e["property"] == self.prop}

    def finish(self):
        known = self.known()
        new, kn = {}, {}
        for k, v in self.viol.items():
            (kn if nkey(k) in known else new)[k] = v
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cover = {
            "explanation": "Static analysis of the type-checked program of /repo's current tree; nothing is "
                           "executed. Rule: " + self.rule,
            "technique": self.technique,
            "obligations": len(self.ok) + len(self.viol) + len(self.undecided),
            "discharged": len(self.ok),
            "violated": len(new),
            "known_findings": len(kn),
            "undecided": len(self.undecided),
            "trusted_base": self.trusted,
            "checker_cmd": "/verif/check " + self.prop,
            "samples": [{"obligation": k, "statement": v} for k, v in list(sorted(self.ok.items()))[:3000]],
            "undecided_obligations": [{"obligation": k, "reason": v} for k, v in sorted(self.undecided.items())[:400]],
            "known": [{"obligation": k, "detail": v} for k, v in sorted(kn.items())],
        }
        cover.update(self.notes)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cover,
             "assumptions": self.trusted, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        json.dump(e, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for k in sorted(kn):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, known[nkey(k)]))
        if new:
            rp = os.path.join(ev, "violations-%s.json" % self.prop)
            json.dump([dict(v, obligation=k) for k, v in sorted(new.items())], open(rp, "w"), indent=1)
            for k, v in sorted(new.items()):
                print("  %s: %s%s" % (k, v["what"], " [%s]" % v["where"] if v.get("where") else ""))
                for s in v.get("path", [])[:40]:
                    print("      " + s)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1f s)" % (
            self.prop, cover["obligations"], len(self.ok), len(self.undecided), len(kn), time.time() - self.t0))
        return 0
