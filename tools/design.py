#!/usr/bin/env python3
"""Fill the planted-bug table of DESIGN.md from seeded/*/meta.json and seeded/RESULTS.txt (id check...)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.in.md").read(); res = {}
p = V + "/tools/seed_results.txt"
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        if a: res[a[0]] = " ".join(a[1:])
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); rows.append("| %s | %s | %s |" % (i, d["property"], res.get(i, "not run")))
s = s.replace("#SEEDS#", "\n".join(rows)).replace("#TABLE#\n", "").replace("#MUT#\n", "")
open(V + "/DESIGN.md", "w").write(s)
