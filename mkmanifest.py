#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check in harness/props."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {}
NA = {}
TECH = {"C38": "property-based testing (Hypothesis), differential between two interpreters"}
exec(open(os.path.join(H, "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "harness/props/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, "property-based testing (Hypothesis) against a reference model"),
                       "level": "exploration", "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
