#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *
from concurrent.futures import ThreadPoolExecutor


def post(work, res, exe):
    fs = sorted(glob.glob(work + "/h*/expect.json"))

    def one(f):
        return subprocess.run(["python3", VERIF + "/harness/l05_read.py", REPO, f], capture_output=True, text=True, env=env())
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, fs))
    loads = refused = 0
    for f, r in zip(fs, rs):
        if r.returncode:
            if res.viol:
                continue
            raise CheckError("l05_read failed\n" + r.stderr[-3000:])
        j = json.loads(r.stdout)
        for sig, d in j["bad"]:
            res.add_viol(sig, d)
        loads += j["loads"]; refused += j["refused"]
    res.extra["logs loaded in Python"] = loads
    res.extra["refused in Python"] = refused
    res.evaluations += loads
    res.traces += loads


simple("L05", "model_checking", "l05.cxx", "common/*.cxx common/logging/*.cxx common/ephemeris/*.cxx utils/*.cxx".split(),
       "every chain of one to three logs amending each other with every choice of three streams in each (0 to 2 records); folders with every choice of three logs and of eight kinds of strays under every spelling of the path; every sequence of three logs opened by one reader; every byte at which a stream can end; each opened by the C++ and by the Python reader",
       flags=["-O1", "-g0", "-fsanitize=address"], libs="-lfmt -lyaml-cpp -lstdc++fs -lglog".split(), post=post,
       assumptions=["Spellings with // and /. are asked of the C++ reader only", "refusal is any exception in Python and a reported check (exit) or exception in C++; what the message says is not judged"])
