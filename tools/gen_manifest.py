#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "sa"))
import registry
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    e = registry.CHECKS.get(p["id"])
    if e is None:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 /verif/check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + p["id"],
                   "technique": e["technique"], "level": e["level"], "level_note": e["explanation"]})
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
