#!/usr/bin/env python3
"""addfixed.py PROP COMMIT 'what failed'  -> appends a fixed entry to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
j = json.load(open(p))
prop, c, what = sys.argv[1:4]
j["findings"].append({"property": prop, "signature": "-", "status": "fixed", "what": f"fixed: property={prop} {c} {what}", "commit": c})
json.dump(j, open(p, "w"), indent=1)
