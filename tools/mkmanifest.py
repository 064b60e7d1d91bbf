#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and stages.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import stages
from levels import NOTES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in stages.STAGES:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo: the specifications are bound to the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
