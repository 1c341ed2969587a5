#!/usr/bin/env python3
"""rewrite the planted-bug table in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, glob, os
NFI = {"b01-set-truth", "q01-mulnorm-near-unit"}
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s%s | %s | %s |" % (i, m["property"], " (no failing input found)" if i in NFI else "", m["needs"], m["what_it_breaks"]))
t = open("/verif/DESIGN.md").read()
B, E_ = "<!-- seeds -->\n", "<!-- /seeds -->"
if "@@SEEDS@@" in t:
    t = t.replace("@@SEEDS@@", B + E_)
a, b = t.index(B) + len(B), t.index(E_)
open("/verif/DESIGN.md", "w").write(t[:a] + "\n".join(rows) + "\n" + t[b:])
