#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
C = json.load(open(os.path.join(H, "checks.json")))
NA = {}
checks, na = [], []
for i in ids:
    if i in C:
        d = C[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": d["technique"], "level": "exploration", "level_note": d["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is registered for this property yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "One choice-sequence property-based testing engine (src/engine.*) drives every check; /repo's sources are compiled from its working tree with sanitizers on every run. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "unclaimed")
