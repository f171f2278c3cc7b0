#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (written by hand-run trials)."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    caught = json.load(open(R + "/tools/caught.json"))
except OSError:
    caught = {}
rows = ["", "| planted bug | property | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(n, "?")))
s = open(R + "/DESIGN.md").read()
i = s.index("### Planted bugs")
open(R + "/DESIGN.md", "w").write(s[:i] + "### Planted bugs\n" + "\n".join(rows) + "\n")
