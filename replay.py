#!/opt/venv/bin/python
"""replay.py FILE: run the failing input of a replay file again on the current /repo tree (exit 1 if it still fails)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib.runner import confirm

d = json.load(open(sys.argv[1]))
if d["kind"] == "input":
    r = confirm(d["property"], d.get("tier", "quick"), d["seed"], d["case"], d["k"])
    print("still fails: " + r["why"] if r else "passes now")
    sys.exit(1 if r else 0)
print("failed obligation:", d["obligation"]["id"])
print("goal:", d["obligation"].get("goal"))
print("model:", d["obligation"].get("model"))
print("input:", d.get("input"))
sys.exit(1)
