#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from registry import PROPS
import engines
root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if k not in ("engine", "note")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    c = engines.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "No check built yet: the specification for this component is not finished."})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if getattr(engines, "HOOKS", None):
    m["hooks"] = engines.HOOKS
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
