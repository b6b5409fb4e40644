#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "pbt/props", i.lower() + ".py")) and i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} quick",
            "thorough_cmd": f"bin/check {i} thorough",
            "technique": "property-based testing (Hypothesis, seeded, shrinking): " + notes[i]["technique"],
            "level": "exploration",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
