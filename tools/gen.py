#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P, NA
ROOT = os.path.dirname(HERE)


def line(x):
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    n = sum(x["statement"].count(s) for s in (". ",)) + 1
    assert n <= 3, (x["id"], n)
    return {"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"], "anchors": {"files": [f for f in x["files"]], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}


ids = [x["id"] for x in P + NA]
assert len(set(ids)) == len(ids)
with open(ROOT + "/properties.jsonl", "w") as f:
    for x in P + NA:
        f.write(json.dumps(line(x)) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": x["id"], "quick_cmd": "bash check.sh " + x["id"], "thorough_cmd": "bash check.sh " + x["id"],
                   "technique": x["technique"], "level": "other", "level_note": x["note"]} for x in P],
       "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in NA],
       "notes": "All checks are static analyses of the MIR of /repo's current source; /repo needs no hooks. Known findings and fixed defects: known_findings.json."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
