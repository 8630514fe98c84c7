#!/usr/bin/env python3
"""The generator's output depends on the filter description alone: every iteration order of the sets it builds, and a range of hash seeds."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from ekfrun import *
import hashlib, itertools

SITE = '''
import builtins, itertools, os
_k = int(os.environ.get("SET_ORDER", "0"))
_set, _fs = builtins.set, builtins.frozenset
def _perm(items):
    items = sorted(items, key=repr)          # a fixed order, then the chosen permutation of it
    n = len(items)
    if n <= 4:
        ps = list(itertools.permutations(items))
        return list(ps[_k % len(ps)])
    r = _k % n                               # rotations, forwards and backwards
    items = items[r:] + items[:r]
    return items[::-1] if (_k // n) % 2 else items
def _cls(base):
    class P(base):
        def __iter__(self): return iter(_perm(list(base.__iter__(self))))
        def pop(self):
            x = next(iter(self)); self.discard(x); return x
    for op in ("__or__", "__and__", "__sub__", "__xor__", "union", "intersection", "difference", "symmetric_difference", "copy"):
        def f(self, *a, _o=getattr(base, op)): return P(_o(self, *a))
        setattr(P, op, f)
    P.__name__ = base.__name__
    return P
import re, enum, typing, functools, collections, argparse, subprocess, numpy, yaml, scipy.stats   # these keep their own sets
builtins.set = _cls(_set)
'''


def run(work, yaml_path, tag, hashseed, order):
    dest = os.path.join(work, f"o_{tag}_{hashseed}_{order}", "core", "ekf")
    os.makedirs(dest)
    e = env()
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = REPO
    if order is not None:
        e["SET_ORDER"] = str(order)
        e["PYTHONPATH"] = os.path.join(work, "site") + ":" + REPO
    # a relative destination, so that the text does not name the folder
    r = subprocess.run(["python3", REPO + "/core/ekf/ekf_gen/ekf_gen.py", "--config_file", yaml_path, "--destination", "core/ekf"],
                       cwd=os.path.dirname(os.path.dirname(dest)), capture_output=True, text=True, env=e, timeout=300)
    out = {}
    if r.returncode == 0:
        for p in sorted(os.listdir(dest)):
            if not p.endswith("_sparse_test.cxx"):   # the self-test written beside the filter
                out[p] = open(os.path.join(dest, p)).read()
    shutil.rmtree(os.path.dirname(os.path.dirname(dest)))
    return r, out


def check(work, t0):
    res = Result()
    os.makedirs(work + "/site")
    open(work + "/site/sitecustomize.py", "w").write(SITE)
    cfgs = dict(CONFIGS)
    cfgs["rtk_ekf"] = open(REPO + "/core/ekf/rtk_ekf.yaml").read()
    cfgs["example_ekf"] = open(REPO + "/core/ekf/ekf_gen/example_ekf.yaml").read()
    seeds = range(8 if TIER == "quick" else 256)
    orders = range(24 if TIER == "quick" else 96)
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for n, t in cfgs.items():
            y = os.path.join(work, n + ".yaml")
            open(y, "w").write(t)
            for s in seeds: jobs.append((n, f"hash seed {s}", ex.submit(run, work, y, n, s, None)))
            for k in orders: jobs.append((n, f"set order {k}", ex.submit(run, work, y, n, 0, k)))
        first = {}
        for n, what, j in jobs:
            r, out = j.result()
            res.transitions += 1
            res.evaluations += 1
            res.traces += 1
            res.states.add(hash((n, what)))
            res.nontrivial.add(hash((n, what)))
            res.outcomes.add(hashlib.md5(repr(sorted(out.items())).encode()).hexdigest())
            if r.returncode:
                if what == "hash seed 0": raise CheckError("the generator failed\n" + r.stderr[-2000:])
                res.add_viol(f"the generator fails for {'some set orders' if 'order' in what else 'some hash seeds'}", f"{n}, {what}: {r.stderr[-500:]}")
                continue
            f = first.setdefault(n, (what, out))
            for p in f[1]:
                if out.get(p) != f[1][p]:
                    a, b = f[1][p].splitlines(), (out.get(p) or "").splitlines()
                    d = next(((x, y) for x, y in itertools.zip_longest(a, b) if x != y), None)
                    res.add_viol(f"generated {p} depends on {'the iteration order of a set' if 'order' in what else 'the hash seed'}", f"{f[0]} against {what}: {d}")
    res.samples = [f"{n}: {len(first[n][1])} files" for n in first]
    return conclude("G02", "exploration", res, "every filter description x hash seeds x iteration orders of the sets the generator builds (all permutations of up to four elements); "
                    "non-trivial: one run of the generator", t0, ["the self-test generated beside the filter (*_sparse_test.cxx) is left out"])


if __name__ == "__main__":
    main(check)
