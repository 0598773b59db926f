#!/usr/bin/env python3
"""writes /verif/DESIGN.md from design_head.md, the rules, the property table and the planted bugs"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT + "/sa"]
sys.dont_write_bytecode = True
from props import P, NA
import rules

out = open(HERE + "/design_head.md").read().rstrip() + "\n"
if NA:
    out += "\n| id | property | why not |\n|---|---|---|\n"
    for x in NA:
        out += "| %s | %s | %s |\n" % (x["id"], x["title"], x["reason"])
out += "\n## 5. How each property is decided\n\nEvery check's evidence states how many paths, calls, stretches and obligations it covered on that run, and the functions followed.\n"
for x in P:
    out += "\n### %s %s\n\n%s\n\n*Decided by* %s. %s\n" % (x["id"], x["title"], x["statement"], x["technique"].rstrip("."), rules.RULES[x["id"]][1]["how"])
out += "\n## 6. Planted bugs\n\nEach compiles, passes the existing tests and fails its demonstration. \"own\" is the check of the property it was planted against.\n\n"
out += "| bug | property | needs | caught by |\n|---|---|---|---|\n"
mx = json.load(open(HERE + "/matrix.json")) if os.path.exists(HERE + "/matrix.json") else {}
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))
    hits = mx.get(b, [])
    c = ("own" if m["property"] in hits else "**missed**") + "".join(", " + h for h in hits if h != m["property"]) if b in mx else "?"
    out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], c)
with open(ROOT + "/DESIGN.md", "w") as f:
    f.write(out)
