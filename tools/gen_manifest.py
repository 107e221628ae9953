#!/usr/bin/env python3
"""writes MANIFEST.json from the claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": f"python3-vt -W ignore check.py {i}", "thorough_cmd": f"python3-vt -W ignore check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "proof", "level_note": CLAIMS[i]})
    else: na.append({"property": i, "reason": NA.get(i, "not yet brought under contract")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && cvc5 --version > /dev/null", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
