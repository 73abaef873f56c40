#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    e = {"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
         "evidence_file": "evidence/%s.json" % i,
         "technique": c.get("technique", "contract-based deductive verification: Verus contracts on the functions extracted from /repo on every run"),
         "level": c["level"], "level_note": c["note"]}
    if c.get("theorems"):
        e["theorems"] = c["theorems"]
    checks.append(e)
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: nothing in /repo is guarded. Commits in /repo are repairs (fix:), listed in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
