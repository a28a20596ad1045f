#!/usr/bin/env python3
"""Maintains checks.json: reg.py ID needs(comma or -) technique | note"""
import json, sys, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(H, "checks.json")
C = json.load(open(p))
BASE = "Exploration of randomly generated cases, no proof. "
for line in sys.stdin:
    line = line.strip()
    if not line: continue
    i, needs, tech, note, assume = [x.strip() for x in line.split("|")]
    C[i] = {"needs": [] if needs == "-" else needs.split(","), "jobs": 8, "quick_s": 120, "thorough_s": 1500, "technique": tech, "note": BASE + note, "assumptions": [a.strip() for a in assume.split(";")]}
json.dump({k: C[k] for k in sorted(C)}, open(p, "w"), indent=1); open(p, "a").write("\n")
