#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
checks = []
for p, s in PROPS.items():
    if not s.get("claim", True):
        continue
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique="contract-based deductive verification (Verus) of the extracted source", level=s["level"],
                       level_note=s.get("note", "Verus discharges the contracts of the functions listed in the evidence; assumed contracts are in its trusted_base.")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open(f"{V}/MANIFEST.json", "w"), indent=1)
