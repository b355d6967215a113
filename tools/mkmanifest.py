#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: property -> level_note."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = json.load(open(here + '/tools/claimed.json'))
na = json.load(open(here + '/tools/not_applicable.json'))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, nas = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: verification conditions from the SSA of the real code, discharged by SMT solvers",
            "level": "proof",
            "level_note": claimed[i],
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "contracts for this property are not written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(nas), "not claimed")
