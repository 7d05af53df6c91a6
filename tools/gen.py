#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
from manifest_meta import HOOKS, NOTES, IMPLEMENTED
checks, na = [], []
for p in P:
    if p["claim"] and p["id"] in IMPLEMENTED:
        m = IMPLEMENTED[p["id"]]
        checks.append({"property": p["id"],
                       "quick_cmd": f"python3 /verif/check.py {p['id']}",
                       "thorough_cmd": f"python3 /verif/check.py {p['id']} --thorough",
                       "technique": m["technique"], "level": m.get("level", "other"), "level_note": m["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "machinery for this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks,
           "not_applicable": na, "notes": NOTES}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
import design
design.write(P, IMPLEMENTED, [(p["id"], p["title"], n["reason"]) for p in P for n in na if n["property"] == p["id"]])
