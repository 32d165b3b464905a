#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from spec import SPEC, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPEC:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no harness yet: the property is in reach of the executor, its harness is not built so far")})
        continue
    s = SPEC[i]
    note = "Every feasible path of the harness over the code compiled from /repo, decided by the solver for all values within: " + s["bounds"] + "."
    if s.get("outside"):
        note += " Not covered: " + s["outside"] + "."
    if s.get("assumptions"):
        note += " Assumes: " + "; ".join(s["assumptions"]) + "."
    note += " Trusts the executor in engine/, z3, and the models in rt/ of the libraries it replaces; sample paths and every counterexample are replayed natively."
    checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "python3 checks/run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)", "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build a copy of its sources as a library, with std, tokio, hyper, sha2 and ryu replaced by the models in rt/ where DESIGN.md says so."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
