#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module in checks/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from techniques import TECH, NA
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists("%s/checks/%s.py" % (V, i.lower())) or i not in TECH: continue
    t, note = TECH[i]
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": t, "level": "exploration", "level_note": note})
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in done]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
