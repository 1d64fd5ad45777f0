#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": c.get("technique", "deductive verification: Verus contracts on functions extracted from /repo on every run; bounded replay against the real crate as stand-in and for failing inputs"),
                       "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: contracts are still being written")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
