#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PEND = "no check yet in this commit; the engine for it is being built (see DESIGN.md)"
CLAIM = {
 "C19": ("trait-solver queries and MIR evaluation of the code the macros generate", "exhaustive over the subsets of the supported supertraits in two orders (all orders up to three in the thorough tier) and nine inheritance shapes; the macro's output is judged, whatever code produces it"),
 "C11": ("trait-solver queries over the type-checked crate", "universal over programs: decided for every element table by the compiler's own trait solver under explicit assumption sets; 'only if' direction"),
 "C12": ("region-capability lint over safe signatures and type definitions", "sound for the borrow structure visible in types: every access a safe result grants is covered by an argument; disjointness of two results of one call is left to C03/C04"),
 "C13": ("API-surface lint over visibility, signatures and trait bounds", "decides which safe constructions exist; known API-shape findings listed"),
}
AI = "path-sensitive abstract interpretation of MIR from every safe public function"
for _p, _n in (("C01", "all paths of every safe function, for an arbitrary element type and table; std calls by models; loops by verified invariants; entry points that exceed the budget are listed as undecided in the evidence"),
               ("C02", "as C01: an object the caller can see never ends up with elements of another type than it describes"),
               ("C03", "as C01, with wrapping arithmetic, so that checks compiled out in release builds are not relied on"),
               ("C04", "as C01: element boundaries of every access and the runs of elements handed out or left behind"),
               ("C05", "as C01: ownership ledger over each run of values, per path"),
               ("C06", "every unwinding path out of user-supplied code, one panic per path"),
               ("C07", "as C01: layout and ownership of every allocation"),
               ("C08", "as C01: arguments of every call through a function table"),
               ("C09", "as C01: descriptors of every object the caller can see"),
               ("C10", "as C01: ledger of compared and hashed elements; the element types' own comparison and hash are taken as given"),
               ("C14", "arms of every alignment dispatch compared with each other up to the chunk type; arms that differ analysed one by one"),
               ("C15", "as C01, for the crate's own numeric helpers: ledger of converted and displayed elements, case by case over the listed types"),
               ("C18", "as C01: each operation's effect on the sequence of elements, by provenance of bytes; histories follow by induction over operations"),
               ("C20", "as C01: capacity before and after every push, storage identity across conversions; the standard vector's own growth is taken as doubling"),
               ("C21", "as C01: ledger of formatted elements; the text each element's own function writes, and separators, are not looked at"),
               ("C16", "as C01, with zero-sized element types; vectors and slices given as arguments have sized elements (by induction)"),
               ("C17", "as C01: provenance of every byte of a clone")):
    CLAIM[_p] = (AI, _n)
NA = {}
ALL = ["C%02d" % i for i in range(1, 22)]
checks, na = [], []
for p in ALL:
    if p in CLAIM:
        t, n = CLAIM[p]
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p, "technique": t,
                       "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, PEND)})
json.dump({"version": 1, "setup_cmd": "cd driver && RUSTUP_TOOLCHAIN=nightly cargo build --release --offline --quiet",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
