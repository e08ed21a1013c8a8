#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read().split("## 4. Planted bugs")[0]
t = open(V + "/tools/planted.txt").read()
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write(s + "## 4. Planted bugs\n\n" + t + "\n| id | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
