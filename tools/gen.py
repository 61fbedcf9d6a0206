#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table tools/props_table.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props_table import PROPS, NOT_APPLICABLE
cfg = json.load(open(os.path.join(R, "specs", "props.json")))
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for p in PROPS:
    if p["id"] not in cfg:
        if p["id"] not in {n["property"] for n in na}:
            na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 vx/check.py {p['id']} quick", "thorough_cmd": f"python3 vx/check.py {p['id']} thorough",
        "technique": p.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo; contracts also evaluated on the compiled crate to find failing inputs"),
        "level": cfg[p["id"]]["level"], "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Deciding step: Verus discharges every obligation of the units in specs/props.json, assembled from /repo's current source by vx/vx.py on every run. See DESIGN.md."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
