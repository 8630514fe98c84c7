#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
from design_text import D
kf = json.load(open(V + "/known_findings.json"))["findings"]
seeds = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in PROPS:
    i = p["id"]
    o += [f"### {i} {p['title']}", "", p["statement"], ""]
    if not os.path.exists(f"{V}/checks/{i}.py"):
        o += [f"Not claimed: {NA.get(i, 'check not built yet')}", ""]
        if i in D: o += ["Planned: " + D[i][0], ""]
        continue
    e, c, w = D[i]
    o += [f"* Anchored in: {', '.join(p['files'])}", f"* Enumerated, and oracle: {e}", f"* Bounds and cost (quick): {c} Numbers of the last run are in evidence/{i}.json.", f"* Why tests cannot: {p['why']}" , ""]
o += ["## Genuine defects repaired (`fix:` commits in /repo)", "", "| property | commit | what failed |", "|---|---|---|"]
for k in kf:
    if k.get("status") == "fixed":
        t = k["what"].split(" ", 3)
        o.append(f"| {k['property']} | {t[2]} | {t[3]} |")
o += ["", "## Known findings (genuine, recorded, not repaired)", ""]
for k in kf:
    if k.get("status") != "fixed":
        o.append(f"* {k['property']}: {k['what']} (signature `{k.get('signature', k.get('sig'))}`)")
o += ["", "They were not repaired because existing tests pin the present behaviour, or the repair is not small; each entry says which.", "",
      "## Planted bugs", "", "Every one compiles, passes the stable tests, and has a demonstration. Validated with `tools/plant.py`.", "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    o.append(f"| {s} | {m['property']} | {seeds.get(s, 'not run')} | {m['needs']} |")
if os.path.exists(V + "/tools/design_tail.md"):
    o += ["", open(V + "/tools/design_tail.md").read()]
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
