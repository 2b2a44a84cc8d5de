#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p)
    if c is None:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "check not built yet")})
        continue
    checks.append({"property": p,
                   "quick_cmd": f"python3 run.py {p} --tier quick",
                   "thorough_cmd": f"python3 run.py {p} --tier thorough",
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
