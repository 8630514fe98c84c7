#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *


def post(work, res, exe):
    fs = sorted(glob.glob(work + "/h*/expect.json"))
    if res.viol:
        return   # the harness itself failed; its notes may be incomplete
    e = env(); e["PYTHONPATH"] = REPO
    r = subprocess.run(["python3", VERIF + "/harness/l03_read.py", REPO] + fs, capture_output=True, text=True, env=e)
    if r.returncode:
        raise CheckError("l03_read failed\n" + r.stderr[-3000:])
    j = json.loads(r.stdout)
    for sig, d in j["bad"]:
        res.add_viol(sig, d)
    res.extra["leaves compared in Python"] = j["leaves"]
    res.evaluations += j["leaves"]
    res.traces += j["traces"]


simple("L03", "exploration", "l03.cxx", "common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx".split(),
       "each of the 27 loggable types followed by its successor in the list, a byte, a row matrix and a Jet, as a two-field stream of 0 to 3 records; every leaf is compared with the Python reader and with the C++ reader; a case is distinct by leaf path and value",
       flags=["-O1", "-g0"], libs="-lfmt -lyaml-cpp -lstdc++fs -lglog".split(), post=post,
       assumptions=["DQuat members are compared within 1e-9: the dual part is rebuilt from the translation", "log_reader.load is called with normalize_time=False for the leaf comparison"])
