#!/usr/bin/env python3
"""Writes MANIFEST.json from vplib/config.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vplib.config import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NOTE = "Search over generated cases, not a proof: says nothing about inputs outside the generated domain or sizes above the bounds in DESIGN.md. Trusts the compiler, the oracle in harness/ and, where MPI is used, Open MPI."
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: " + c["tech"], "level": "exploration",
                       "level_note": c["note"] + " " + NOTE})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are used. ./check ID [--tier thorough], ./check --replay FILE. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")
