#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "TLA+/TLC model checking + trace validation of the real code"
notes = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
bins = set()
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) and i in notes:
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=notes[i].get("technique", T), level="model_checking", level_note=notes[i]["note"]))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "its specification and conformance harness are not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public API by instantiating the generic code on a toy engine. "
               "known-findings.txt lists the defects found and fixed.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
