#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
V = C.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "pure functions of their arguments, no state, time, I/O, allocation or concurrency: there is no schedule or fault to simulate (their values under concurrency are C01)",
 "N02": "pure functions of their arguments; nothing for a simulator to schedule or fail (the round trip through embeddings is covered in C06)",
 "N03": "constant tables; nothing for a simulator to schedule or fail (their first-use initialisation is C01/C07)",
 "N04": "pure integer arithmetic on immutable grids; nothing for a simulator to schedule or fail (concurrent and out-of-memory queries are C02/C07)",
 "N05": "pure geometric predicates; nothing for a simulator to schedule or fail",
 "N06": "pure tensor algebra; nothing for a simulator to schedule or fail",
 "N07": "pure constitutive laws that need SOFA, which is not installed; nothing for a simulator to schedule or fail",
}
NOTE = {
 "C01": "Seeded search over interleavings at every memory access of instrumented code (5 scheduling policies); happens-before race detection on every access, results compared with runs without interference. Trusts the simulator runtime; library code outside headers is not instrumented.",
 "C02": "As C01, for meshes, domains, embeddings, hash grids and grids shared between threads.",
 "C03": "As C01, each thread on its own objects; the reference is each thread alone in a fresh process.",
 "C04": "Seeded search over operation histories with an allocation failure at seeded positions, compared after each operation with a reference model; leak, heap and progress checks.",
 "C05": "As C04 with copies, moves, swaps and assignments, sources changed and destroyed in between.",
 "C06": "Seeded search over embeddings and hash grids with allocation failures at seeded positions, bad inputs and other live embeddings; functional oracle independent of the search structure.",
 "C07": "Seeded search over query histories with allocation failures at seeded positions; every answer compared with the run without failures.",
 "C08": "Seeded search over generated files and over how a simulated disk delivers their bytes; the oracle is the model the file was written from.",
 "C09": "Seeded search over damaged files, I/O errors and allocation failures on a simulated disk; the oracle is an independent strict parser of the legacy format.",
 "C10": "Seeded search over histories of readers, builders, copies and imports with throwing builders and allocation failures.",
 "C11": "Seeded search over histories of binding calls, drops and collections on the real bindings with a poisoning, checking heap.",
}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in C.CFG:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection (seeded schedule and fault search)", level="exploration", level_note=NOTE[i]))
    else: na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na, notes="No hooks in /repo: the seams are compiler instrumentation and symbol interposition. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
