#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = ("Executions of random programs on the real engine are validated against the operational "
        "semantics in spec/VQL.tla by TLC (rows, evaluation events, goroutines left).")
T = "TLA+ operational semantics, TLC conformance checking of recorded executions"
import mktable
checks = []
for pid, (tech, level, note) in mktable.TABLE.items():
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                   "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + pid,
                   "technique": tech, "level": level, "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": mktable.NA.get(i, "not yet covered by a check")} for i in ids if i not in mktable.TABLE]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "check.py <id> decides one property; VERIF_TIER and VERIF_SEED select tier and seed. "
              "No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
