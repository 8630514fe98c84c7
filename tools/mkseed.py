"""Development aid: turns (edits, demo) into seeded/<id>/."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = {"time": "common/utctime.cxx common/quantized_time.cxx",
       "sat": "$(ls common/*.cxx common/satellite/*.cxx common/ephemeris/*.cxx utils/*.cxx core/sat_manager.cxx | grep -v -e /test_ -e /bench_ -e _test.cxx)",
       "log": "$(ls common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx | grep -v -e /test_ -e /bench_ -e _test.cxx)",
       "eph": "$(ls common/*.cxx common/ephemeris/*.cxx utils/crc.cxx | grep -v -e /test_ -e /bench_ -e _test.cxx)",
       "geo": "common/utctime.cxx common/quantized_time.cxx utils/wgs84.cxx", "none": ""}
LIB = {"time": "-lfmt", "sat": "-lfmt -lyaml-cpp -lstdc++fs", "log": "-lfmt -lyaml-cpp -lstdc++fs -lglog", "eph": "-lfmt", "geo": "-lfmt", "none": "-lfmt"}
def seed(id, prop, needs, breaks, edits, demo, kind="none", srcs=None, libs=None, script=None):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); 
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {t}", shell=True, check=True)
        subprocess.run(f"cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm a", shell=True, check=True)
        for f, o, n in edits:
            s = open(f"{t}/{f}").read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(f"{t}/{f}", "w").write(s.replace(o, n))
        p = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if script:
        open(d + "/demo.sh", "w").write(script)
        if demo: open(d + "/demo.cxx", "w").write(demo)
    else:
        open(d + "/demo.cxx", "w").write(demo)
        open(d + "/demo.sh", "w").write(f'''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=gnu++17 -O1 -w -DCHECK_THROW -DFMT_DEPRECATED_OSTREAM -pthread -I/usr/include/eigen3 -I"$PWD" "$d/demo.cxx" {srcs if srcs is not None else SRC[kind]} -o "$w/demo" {libs or LIB[kind]} || exit 3
cd "$w" && timeout 100 ./demo
''')
