#!/usr/bin/env python3
"""MANIFEST.json from props.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(H + "/props.json"))
na = json.load(open(H + "/na.json"))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i in props:
        p = props[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p.get("technique", "contract-based deductive verification: Verus contracts on the extracted functions of /repo; bounded search on the real crate for witnesses"),
            "level": p["level"], "level_note": p["note"]})
missing = [i for i in ids if i not in props and i not in na]
assert not missing, missing
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na and i not in props],
    "notes": "One extractor (extract/) joins the functions of /repo/src with the contracts of contracts/*.vrs into one Verus crate on every run; check.py decides each property from the obligations of the functions it owns, and runs the real crate (harness/) for a failing input.",
}, open(H + "/MANIFEST.json", "w"), indent=1)
