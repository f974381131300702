#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import jobs
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.JOBS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=jobs.technique(i), level=jobs.LEVEL.get(i, "model_checking"), level_note=jobs.note(i)))
    else:
        na.append(dict(property=i, reason=jobs.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="All engines explore the real code compiled from /repo; no hooks are needed in /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
