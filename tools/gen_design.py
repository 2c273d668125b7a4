#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the table of planted bugs (seeded/*/meta.json, detected.tsv, gaps.tsv)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = dict(l.rstrip("\n").split("\t", 1) for l in open(V + "/tools/detected.tsv"))
gaps = {}
if os.path.exists(V + "/tools/gaps.tsv"):
    gaps = dict(l.rstrip("\n").split("\t", 1) for l in open(V + "/tools/gaps.tsv") if "\t" in l)
out = open(V + "/tools/design_head.md").read()
out += "\n## Planted bugs\n\nEach is in `seeded/<id>/`, written from a property and the code (`tools/plant.py` validates it: builds, passes the tests, "
out += "demonstration fails only with it) and then run against its property's check.\n\n| bug | check | result | what it breaks | needs |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    r = rows.get(d, "?")
    if d in gaps: r += "; " + gaps[d]
    out += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], r, m["what_it_breaks"], m["needs"])
open(V + "/DESIGN.md", "w").write(out)
