#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs (seeded/*/meta.json) + tools/design_tail.md"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(f"{V}/tools/design_head.md").read().rstrip() + "\n\n## 6. Planted bugs\n\n"
o += ("Each of these (`seeded/<id>/`) compiles, passes the existing tests, and has a demonstration of its own. All of them are caught by the quick check of\n"
      "the property named, unless the last column says otherwise (`tools/tryall.sh` runs them all in a private mount namespace).\n\n"
      "| id | check | needs | breaks |\n|---|---|---|---|\n")
c = lambda s: " ".join(s.replace("|", "/").split())
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    o += f"| {f.split('/')[-2]} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |\n"
o += "\n" + open(f"{V}/tools/design_tail.md").read()
open(f"{V}/DESIGN.md", "w").write(o)
