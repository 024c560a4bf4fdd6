#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the monitors present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(H, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(H, "mon", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="no check yet"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 check.py {pid}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {pid}",
        technique=TECH.get(pid, TECH["*"]),
        level="exploration",
        level_note=TECH["note"],
    ))
json.dump(dict(version=1, setup_cmd="python3 check.py --selfcheck", checks=checks,
               not_applicable=na,
               notes="Runtime monitors over the real package; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
