#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (a property is claimed when checks/<id>.py exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
rows, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p.get("observe", []), "hook_needed": None}})
    if os.path.exists(f"{V}/checks/{p['id']}.py"):
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['id']}.py",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{p['id']}.py",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
with open(V + "/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'vlib'); import vcheck_run\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo. Each check builds its harness and the sources it needs from /repo's working tree in a temporary folder; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for r in rows:
        jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok")
except ImportError:
    print("no jsonschema")
print(len(rows), "properties,", len(checks), "claimed")
