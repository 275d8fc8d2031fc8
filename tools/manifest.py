#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties that have a check."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3-vt checks/%s.py quick" % i, thorough_cmd="python3-vt checks/%s.py thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t["technique"], level="exploration", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=TECH.get(i, {}).get("na", "the monitor for this property is not built yet; not claimed")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks are run-time monitors: instrumented or recorded executions of the code built from /repo's working tree, judged by offline oracles. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
