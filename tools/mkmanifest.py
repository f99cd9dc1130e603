#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = {}
exec(open(os.path.join(here, "tools", "notes.py")).read(), notes)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes["READY"]:
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
                           thorough_cmd="./check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=notes["TECH"].get(i, "property-based testing"),
                           level="exploration", level_note=notes["READY"][i]))
    else:
        na.append(dict(property=i, reason=notes["NA"].get(i, "check not built yet; planned with the same technique")))
m = dict(version=1, setup_cmd="./check.py --build setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
