#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": p.get("technique", "bounded model checking of the real code (Kani/CBMC, SAT)"),
                       "level": p["level"],
                       "level_note": p["explanation"] + " Bounds: " + p["bounds"] + ". Assumes: " + "; ".join(p["assumptions"]) + "."})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
