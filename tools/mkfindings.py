#!/opt/venv/bin/python
"""Writes known_findings.json: the repaired defects (one per fix commit of /repo) and the open ones."""
import json
import os
import subprocess

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(H, "tools", "fixes.txt")):
    line = line.strip()
    if line and not line.startswith("#"):
        h, p = line.split()
        PROP[h] = p.split(",")
OPEN = json.load(open(os.path.join(H, "tools", "open_findings.json")))
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "407a798..HEAD"], capture_output=True, text=True).stdout
for line in log.strip().split("\n"):
    h, s = line.split(" ", 1)
    s = s[len("fix: "):]
    for p in PROP[h[:7]]:
        out.append(dict(id=f"fixed-{h[:7]}-{p}", property=p, status="fixed", what=f"fixed: property={p} {h[:7]} {s}"))
json.dump(dict(findings=OPEN + out), open(os.path.join(H, "known_findings.json"), "w"), indent=1)
