#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if glob.glob(os.path.join(V, "checks", pid.lower() + "_*.py")):
        t = TECH[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "./check.py " + pid,
            "thorough_cmd": "./check.py {} --tier thorough".format(pid),
            "evidence_file": "evidence/{}.json".format(pid),
            "technique": t[0],
            "level": "exploration",
            "level_note": t[1],
        })
    else:
        na.append({"property": pid, "reason": TECH.get("NA", {}).get(pid, "the check is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check drives the public API on files in a scratch directory. "
    "Known and repaired defects: known_findings.json.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
