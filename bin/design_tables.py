#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only).

usage: design_tables.py [MATRIX_OUTPUT]   (output of seed.py matrix; without it, the 'caught' column is kept from seeded/caught.json)"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r"(\S+)\s+(C\d\d) exit (\d)\s+(.*)", l)
        if m:
            caught[m.group(1)] = (m.group(2), m.group(3), m.group(4))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    i = f.split("/")[-2]
    m = json.load(open(f))
    c = caught.get(i)
    by = "not run" if not c else ("**missed**" if c[1] != "1" else c[0] + ": " + re.sub(r"^scenario ", "", c[2])[:110].replace("|", "\\|").replace("\n", " "))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), by))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
