#!/usr/bin/env python3
"""Writes the list of repaired defects of known_findings.json from the fix: commits of /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {l.split(None, 1)[1].strip(): l.split(None, 1)[0] for l in open(os.path.join(V, "tools", "fixed.txt")) if l.strip()}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(None, 1)
    if s.startswith("fix:"):
        fixed.append("fixed: property={} {} {}".format(PROPS[s], h, s[4:].strip()))
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
