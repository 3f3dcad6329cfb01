#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from specs import SPECS   # id -> (technique, level_note)
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=SPECS[i][0], level="model_checking", level_note=SPECS[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet; planned as described in DESIGN.md")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="All checks: python3 check.py <id> [quick|thorough]. TLA+ specifications in spec/, Go harness in harness/ (built against /repo's working tree on every run), no hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
