"""Writes DESIGN.md from DESIGN.in.md, the plans and the planted bugs."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plans  # noqa: E402

root = os.path.dirname(here)
rows = []
for p, plan in sorted(plans.PLANS.items()):
    models = [m[-1] for m in plan.get("models", []) + plan.get("deep", [])]
    models += plan.get("small", []) + ["~~%s~~" % m[-1] for m in plan.get("wrong", [])]
    models += plan.get("proofs", [])
    calls = [c[0] for c in plan.get("calls", [])] + plan.get("text", [])
    rows.append("| %s | %s | %s | %s |" % (p, ", ".join(models) or "–", " ".join(calls) or "histories", plans.NOTES.get(p, "")))
seeds = []
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    seeds.append((m["property"], s, m["needs"]))
t = open(os.path.join(here, "DESIGN.in.md")).read()
t = t.replace("PROPS\n", "\n".join(rows) + "\n")
t = t.replace("SEEDS\n", "| bug | caught by | needs |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (s, p, n) for p, s, n in sorted(seeds)) + "\n")
open(os.path.join(root, "DESIGN.md"), "w").write(t)
