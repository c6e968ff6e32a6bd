#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded-results.tsv."""
import glob, json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
f = os.path.join(here, "tools", "seeded-results.tsv")
if os.path.exists(f):
    for l in open(f):
        i, checks = l.rstrip("\n").split("\t")
        res[i] = checks
rows = ["| Planted bug | Breaks | Needs | Caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "?")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
