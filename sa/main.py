import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import session, report


def simple(fn, technique, rule, trusted):
    def go(prop):
        rep = report.Report(prop, technique, rule, trusted)
        s = session.Build(session.REPO, "dync", ["--all-features"], "all").session()
        rep.notes["analysed"] = {"crate": "dync", "features": "all",
                                 "functions": len(s.items()["fns"]),
                                 "safe_reachable": len([f for f in s.items()["fns"] if f["reachable"] and not f["unsafe"]])}
        fn(s, rep)
        return rep.finish()
    return go


def c12(s, rep):
    import regions
    items = s.items()
    R = regions.Regions(items)
    for f in items["fns"]:
        if not f["reachable"] or f["unsafe"]:
            continue
        p, n = regions.check_fn(R, f)
        if not n:
            continue
        key = "borrow of " + f["path"]
        if p:
            rep.violation(key, "; ".join(p), f["span"])
        else:
            rep.hold(key, "%d access grants in the result, each covered by an argument" % n)


def c11(s, rep):
    import threads
    threads.run(s, rep)


def c13(s, rep):
    import forge
    forge.run(s, rep)


def c19(prop):
    import derive
    rep = report.Report(prop, "the macro applied at compile time to every subset of the supported supertraits; trait-solver queries and symbolic evaluation of the generated MIR",
                        "for every trait: Has* holds for its table exactly for the listed and inherited capabilities; tables exist only for types implementing the trait; each accessor, "
                        "of the table and of every table it converts to, returns the element type's function for its operation", TCB)
    derive.run(rep)
    return rep.finish()


TCB = ["rustc's type checker and trait solver", "the analysis driver and rules under /verif"]
CHECKS = {
    "C19": c19,
    "C11": simple(c11, "trait-solver queries over the type-checked crate",
                  "Send/Sync of every erased type, impl, function table and returned iterator may hold only if the "
                  "function table vouches for the capability", TCB),
    "C12": simple(c12, "region-capability lint over all safe reachable signatures",
                  "every access a result grants (region, exclusive/shared, data/table) is covered by an argument", TCB),
    "C13": simple(c13, "API-surface lint over visibility, signatures and trait bounds",
                  "no safe reachable function or public field grants raw write access to erased bytes or assembles "
                  "an erased object from independent parts", TCB),
}


FLOW_TCB = ["rustc's MIR construction, monomorphisation and layout", "the models of the standard library functions in sa/models.py and sa/vecs.py",
            "the analysis engine under /verif/sa", "unsafe functions of the crate are analysed only as called from safe ones; callers of public unsafe functions keep their contracts",
            "user-supplied implementations may panic but otherwise behave as their traits say"]
FLOW = "path-sensitive abstract interpretation of the compiler's MIR (ownership, type-identity, bounds and layout domains, loop invariants) from every safe public function"
RULES = {
    "C01": "on every path, memory holding erased elements is used as a named type T only where the stored type identity is known to equal T",
    "C02": "on every path, an erased object that the caller can still see holds only elements of the type it describes",
    "C03": "on every path, every access lies inside its allocation and inside the live elements, with wrapping (release) arithmetic",
    "C04": "on every path, an element access starts at an element boundary and covers whole elements, and what an operation returns or leaves behind is the run of elements its name says",
    "C05": "on every returning path, each value is dropped once, or kept by one owner; never both, never neither",
    "C06": "on every path that unwinds out of a user-supplied drop, clone, comparison or closure, no value is dropped twice and every object the caller still sees is consistent",
    "C07": "on every path, each deallocation, reallocation and typed reinterpretation of storage uses the size and alignment of the allocation, once",
    "C08": "on every path, a function of a table is applied to exactly one element of the type the table belongs to",
    "C09": "on every path, the type identity, size, alignment and table of each object the caller can see are those of the elements it holds",
}
RULES["C10"] = "on every path, an erased comparison that answers true has compared types, lengths and every pair of corresponding elements, one that answers false has found a difference, and a hash has taken in every element once, in order; total equality (Eq) only where the table vouches for it, and tables vouch for it only for elements that have it"
RULES["C17"] = "on every path, each element of a clone was made by the element type's own clone (bytes only for plain-data elements), in the same order, and the original is as before"
RULES["C15"] = "on every path, each numeric helper reads the elements as a numeric type only where that is the stored type, handles all of them in order, and does so for every listed type and for no other"
RULES["C18"] = "every operation, on every path, leaves exactly the sequence of elements its typed counterpart would (provenance of every byte of the result and of the arguments), so sequences of operations do as well"
RULES["C20"] = "on every path of a push, capacity changes only by a factor; conversions hand the storage on"
RULES["C21"] = "on every path of a formatting function that succeeds, every element was formatted, once and in order, by the function of its own type"
RULES["C14"] = "the arms of each dispatch over alignments are compared in the compiler's MIR up to the chunk type, which must have the arm's size and alignment; every power of two has an arm, the default arm panics; one representative of the equal arms and every other arm is analysed as for C01-C09"
RULES["C16"] = "run for zero-sized element types (those the caller names and those of single values passed in): on every path that returns or unwinds, no erased vector or slice the caller can see describes zero-sized elements"
import checks, tables, threads


def c10(b, rep):
    tables.check(b, rep)
    threads.total(b, rep)


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C20", "C21"):
    CHECKS[_p] = checks.check(_p, FLOW, RULES[_p], FLOW_TCB, {"C14": checks.arms, "C08": tables.check, "C10": c10}.get(_p, tables.check if _p in tables.FOR else None))


def main():
    prop = sys.argv[1]
    if prop not in CHECKS:
        print("unknown property " + prop)
        return 2
    try:
        return CHECKS[prop](prop)
    except session.ToolError as e:
        print("cannot analyse: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
