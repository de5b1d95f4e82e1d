#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vc"))
import registry
from meta import PROPERTIES

with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPERTIES:
    r = registry.PROPS.get(p["id"])
    if not r:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py {p['id']}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=r["level"], level_note=p["level_note"],
                       **({"theorems": p["theorems"]} if p.get("theorems") and r["level"] == "proof" else {})))
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPERTIES if p["id"] not in registry.PROPS],
         notes="Contract-based deductive verification of the real code; see DESIGN.md. Bounded stand-ins are labelled and never counted as proved.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
