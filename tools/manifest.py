#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the list of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
exec(open(os.path.join(here, "tools", "checks.py")).read())
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        tech, note = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
