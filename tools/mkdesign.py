#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "\\|"), m["property"]))
f = V + "/DESIGN.md"
t = open(f).read()
a, b = t.index("<!-- bugs -->\n"), t.index("<!-- /bugs -->")
open(f, "w").write(t[:a] + "<!-- bugs -->\n| bug | needs | caught by |\n|----|----|----|\n" + "\n".join(rows) + "\n" + t[b:])
