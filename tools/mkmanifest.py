#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
info = json.load(open(os.path.join(R, "tools", "checks.json")))
na = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in info and os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python -B checks/run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -B checks/run.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification model-checked with TLC; " + info[i]["technique"],
                       "level": "model_checking", "level_note": info[i]["note"]})
    else:
        nas.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": nas,
     "notes": "No hooks in /repo: every check drives the public API of the working tree and judges the recorded "
              "events with TLC. Repairs of genuine defects are the fix: commits; see known_findings.json and DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in nas])
