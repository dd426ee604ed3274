"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from nxv import main as M
NA = {
 "P26": "concurrency: the verifier (like the contract-based tools installed here) has no thread or lock-ownership model for C++; data-race freedom and cross-thread snapshots are schedules, not function contracts",
 "P27": "whether every use still resolves to the same definition after the edit relates two runs of the analysis, on the program before and after (capture); no contract on the functions that build the edits expresses it. What they rest on is claimed: uses are exactly the variables that resolve to a definition (P12), ranges convert exactly (P15, P25)",
 "P28": "the actions' correctness is equality of program values before and after; it needs an evaluator semantics that no contract within reach expresses (the text-level parts are covered by P14 and P18)",
 "P29": "crash and delay of worker processes are fault sequences across processes that need the Nix evaluator, which is not installed; no function-level contract expresses them",
}
r = M.registry()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in r:
        c = r[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": c.technique, "level": c.level, "level_note": c.level_note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet (work in progress)")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "Contract-based deductive verification of /repo's C++ by a purpose-built verifier (nxv/): clang-extracted function bodies, contracts in nxv/spec_*.py, verification conditions discharged by z3/cvc5. No hooks in /repo; see DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
