#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    c = checks.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "no contract on these functions is discharged yet (work in progress); see DESIGN.md"})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "Verus contracts on functions extracted mechanically from /repo on every run; executable form of the same contracts as bounded check of the glue and failing-input search"),
        "level": c.get("level", "proof"),
        "level_note": c.get("note", "Proved for all inputs: the contracted functions listed in the evidence. Bounded: " + c.get("bounded_covers", "") + ". Assumed: the contracts of nom/core shims in units/*.inc, and what the extraction drops (logging, listed in the evidence)."),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
