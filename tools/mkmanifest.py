#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plans
TRUST = ("The specification states the property from 3GPP TS 23.038/23.040 and the documentation; TLC decides every recorded result by it. "
         "Bounded by the structured cases and random inputs generated (seeded); a pinned copy of the library chooses which of the many random calls are recorded, and never decides. ")
checks = []
for l in open(os.path.join(HERE, "..", "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in plans.PLANS:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "technique": plans.TECHNIQUE.get(p["id"], "TLA+ specification model checked with TLC; calls of the real code recorded and judged against the specification by TLC"),
        "level": "model_checking",
        "level_note": TRUST + plans.NOTES.get(p["id"], ""),
    })
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": plans.NOT_APPLICABLE},
          open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
