#!/opt/venv/bin/python
"""Writes MANIFEST.json from checks/meta.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks.meta import META, CLAIMED
import checks.meta as M
PY = "/opt/venv/bin/python"
checks = [dict(property=p, quick_cmd=f"{PY} check.py {p} --tier quick", thorough_cmd=f"{PY} check.py {p} --tier thorough",
               technique=META[p]["technique"], level=META[p]["level"], level_note=META[p]["level_note"]) for p in CLAIMED]
na = getattr(M, "NOT_APPLICABLE", {})
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
json.dump(dict(version=1, setup_cmd=f"{PY} -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, swiftsimio, pyvc.interp\"",
               checks=checks,
               not_applicable=[dict(property=p, reason=na.get(p, "not built yet")) for p in props if p not in CLAIMED]),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
