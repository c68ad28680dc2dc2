#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOTES = json.load(open(f"{V}/tools/level_notes.json"))
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/harness/{i.lower()}.py") and i in NOTES:
        n = NOTES[i]
        c = dict(property=i, quick_cmd=f"bash harness/run.sh {i} quick", thorough_cmd=f"bash harness/run.sh {i} thorough",
                 technique=n["technique"], level="model_checking", level_note=n["note"])
        checks.append(c)
    else:
        na.append(dict(property=i, reason="check under construction; not claimed yet"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="Quint specifications in spec/, conformance drivers in harness/; see DESIGN.md. No hooks were needed in /repo: every check uses the public API.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
