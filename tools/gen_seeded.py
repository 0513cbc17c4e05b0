#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results file."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(V, "tools/seeded_results.txt")):
    p = l.rstrip("\n").split(" ", 2)
    if len(p) == 3:
        res[p[0]] = (p[1], p[2])
rows = ["| planted bug | property | needs | found by (class, run) |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd), key=lambda i: (json.load(open(os.path.join(sd, i, "meta.json")))["property"], i)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    c, w = res.get(i, ("-", "not run"))
    rows.append("| %s | %s | %s | %s: %s |" % (i, m["property"], m["needs"], c, w))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
k = "<!-- seeded-table -->"
a, b = s.split(k)[0], s.split("<!-- seeded-table-end -->")[1] if "<!-- seeded-table-end -->" in s else ""
open(f, "w").write(a + k + "\n" + "\n".join(rows) + "\n<!-- seeded-table-end -->" + (b or "\n"))
