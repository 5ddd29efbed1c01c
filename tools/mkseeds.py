#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (what each needs, and the check observed to catch it)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(H + "/tools/caught.json"))
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "-")))
p = H + "/DESIGN.md"
s = open(p).read().split("\n| planted bug |")[0].rstrip("\n")
open(p, "w").write(s + "\n\n| planted bug | breaks | needs | caught by (quick, seed 1) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
