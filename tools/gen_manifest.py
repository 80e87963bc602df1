#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C33": "data races need a memory-model exploration of concurrent schedules; MPack has no threads, locks or globals, so there is no schedule-dependent code to encode and CBMC's thread support adds nothing to the absence of shared mutable state; not decided by a solver here",
 "C34": "unbounded by nature (depth grows with the data) and about machine stack usage, which the C-level encoding does not model; recursion in discard and printing is a known limitation described in DESIGN.md",
 "C35": "CBMC's C++ front end does not support the headers, overload resolution and exceptions involved, and no LLVM-level symbolic engine is installed; the C generic dispatch is covered under C03",
}
have = sorted(set(h["prop"] for h in registry.HARNESSES))
checks = []
for p in props:
    if p["id"] in have:
        hs = [h for h in registry.HARNESSES if h["prop"] == p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
            technique="CBMC bounded symbolic execution of the real C sources, SAT-decided, counterexamples replayed natively",
            level=registry.LEVEL,
            level_note="Holds for every symbolic value within the stated bounds of %d harnesses (unwinding assertions on): %s. Trusts CBMC's C semantics, its SAT solver, and the harness oracle; nothing is claimed beyond the bounds." % (
                len(hs), "; ".join(sorted(set(h["bounds"] for h in hs)))[:900])))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in have]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks compile /repo's current sources with goto-cc; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
