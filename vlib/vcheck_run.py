"""Builds a harness against /repo's working tree, runs its shards, merges what they explored,
writes evidence/<id>.json and prints the verdict. See DESIGN.md, "Machinery"."""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 4

BASE = ["-std=gnu++17", "-w", "-DCHECK_THROW", "-DFMT_DEPRECATED_OSTREAM", "-pthread"]
INC = ["-I/usr/include/eigen3"]
FAST = ["-O2", "-g0"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,null", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(VERIF, ".cache", "ccache")
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_MAXSIZE"] = "3G"
    e.pop("CCACHE_DISABLE", None)
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    e["HOME"] = e.get("HOME", "/root")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_TIER"] = TIER
    e["VERIF_SEED"] = str(SEED)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["OMP_NUM_THREADS"] = "1"
    return e


def is_lib_source(p):
    b = os.path.basename(p)
    if re.search(r"(^|_)(test|bench)(_|\.)", b) or b.startswith(("test_", "bench_")) or b.endswith(("_test.cxx", "_bench.cxx")):
        return False
    rel = os.path.relpath(p, REPO)
    return not rel.startswith(("tools/", "scratch/", "_build", "plotting/"))


class Builder:
    def __init__(self, work, flags, incs=()):
        self.work, self.flags, self.incs = work, flags, list(incs)
        self.cxx = (["ccache"] if shutil.which("ccache") else []) + ["g++"]

    def compile(self, srcs, extra=(), must=True):
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for s in srcs:
                o = os.path.join(self.work, hashlib.md5((s + repr(extra)).encode()).hexdigest()[:12] + ".o")
                cmd = self.cxx + BASE + self.flags + list(extra) + ["-I" + i for i in self.incs] + INC + ["-I" + REPO, "-I" + VERIF + "/harness", "-c", s, "-o", o]
                jobs.append((s, o, ex.submit(subprocess.run, cmd, capture_output=True, text=True, env=env())))
        for s, o, j in jobs:
            r = j.result()
            if r.returncode:
                if must:
                    raise CheckError(f"compile failed: {s}\n{chr(10).join(l for l in r.stderr.splitlines() if "error" in l)[:2500]}")
                continue
            objs.append(o)
        return objs

    def link(self, exe, main_objs, lib_objs, libs, fallback_incs=()):
        def go(los):
            a = exe + ".a"
            if os.path.exists(a):
                os.unlink(a)
            if los:
                subprocess.run(["ar", "rcs", a] + los, check=True)
            return subprocess.run(["g++"] + self.flags + ["-pthread", "-o", exe] + main_objs + ([a, a] if los else []) + libs,
                                  capture_output=True, text=True, env=env())
        r = go(lib_objs)
        if r.returncode and "undefined reference" in r.stderr:
            # code moved to another source file: offer every library source of the tree
            srcs = [p for p in glob.glob(REPO + "/**/*.cxx", recursive=True) if is_lib_source(p) and "/third_party/" not in p]
            r = go(lib_objs + self.compile(srcs, must=False))
        if r.returncode:
            raise CheckError("link failed\n" + r.stderr[-6000:])


def ekf_gen(work, yaml_rel, dest_rel, yaml_path=None):
    """Runs the repository's EKF generator exactly as cmake/EkfRule.cmake does."""
    dest = os.path.join(work, "gen", dest_rel)
    os.makedirs(dest, exist_ok=True)
    e = env()
    e["PYTHONPATH"] = REPO
    r = subprocess.run([sys.executable if False else "python3", REPO + "/core/ekf/ekf_gen/ekf_gen.py", "--config_file",
                        yaml_path or os.path.join(REPO, yaml_rel), "--destination", dest],
                       capture_output=True, text=True, env=e, cwd=work)
    if r.returncode:
        raise CheckError("ekf_gen failed\n" + r.stderr[-4000:])
    return os.path.join(work, "gen")


class Result:
    def __init__(self):
        self.states, self.nontrivial, self.outcomes = set(), set(), set()
        self.transitions = self.evaluations = self.traces = 0
        self.samples, self.extra, self.viol = [], {}, {}

    def add_viol(self, sig, detail, count=1):
        if sig in self.viol:
            self.viol[sig]["count"] += count
        else:
            self.viol[sig] = {"detail": detail, "count": count}


def read_set(path):
    a = array.array("Q")
    if os.path.exists(path):
        with open(path, "rb") as f:
            a.frombytes(f.read())
    return a


def _text(b):
    return b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")


def run_shards(res, exe, work, nshards=None, args=(), extra_env=None, timeout=None, crash_is_violation=True, tag="h"):
    nshards = nshards or NPROC
    timeout = timeout or (780 if TIER == "quick" else 6 * 3600)

    def one(i):
        e = env()
        d = os.path.join(work, f"{tag}{i}")
        os.makedirs(d, exist_ok=True)
        e.update(VH_OUT=d + "/out.json", VH_CTX=d + "/ctx", VH_SHARD=str(i), VH_NSHARDS=str(nshards), VH_DIR=d)
        e.update(extra_env or {})
        try:
            with open(d + "/log", "wb") as lf:
                r = subprocess.run([exe] + list(args), stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        return i, d, rc

    with cf.ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(one, range(nshards)))
    for i, d, rc in rs:
        log = _text(open(d + "/log", "rb").read()[-200000:])
        if rc == 0 and os.path.exists(d + "/out.json"):
            j = json.load(open(d + "/out.json"))
            res.transitions += j["transitions"]
            res.evaluations += j["evaluations"]
            res.traces += j["traces"]
            res.states.update(read_set(d + "/out.json.states"))
            res.nontrivial.update(read_set(d + "/out.json.nontrivial"))
            res.outcomes.update(read_set(d + "/out.json.outcomes"))
            res.samples += j["samples"][: max(0, 8 - len(res.samples))]
            for k, v in j["extra"].items():
                res.extra[k] = res.extra.get(k, 0) + v
            for v in j["violations"]:
                res.add_viol(v["sig"], v["detail"], v["count"])
            continue
        ctx = b""
        hang = False
        if os.path.exists(d + "/ctx"):
            raw = open(d + "/ctx", "rb").read()
            hang = raw[:4] != b"\0\0\0\0"
            ctx = raw[4:].split(b"\0")[0]
        if rc == "timeout":
            raise CheckError(f"{tag} shard {i} ran out of time at: {_text(ctx)}")
        if not crash_is_violation:
            raise CheckError(f"{tag} shard {i} ended with {rc}\n{log[-3000:]}")
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)", log)
        kind = "hang" if hang else (m.group(1) if m else f"abnormal end rc={rc}")
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", kind)
        res.add_viol(f"crash: {kind}", f"{_text(ctx)} :: {log[-1500:]}")


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["signature"]: k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status", "known") == "known"}


def conclude(prop, level, res, rule, t0, assumptions=(), exhaustive=True, extra_cov=None):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    kn = known(prop)
    new = {s: v for s, v in res.viol.items() if s not in kn}
    cov = {"rule": rule, "samples": res.samples[:8] or ["(none)"], "exhaustive": bool(exhaustive)}
    if level == "model_checking":
        cov.update(states=len(res.states), transitions=res.transitions, traces_validated_against_impl=res.traces)
    else:
        cov.update(evaluations=res.evaluations, distinct_nontrivial=len(res.nontrivial))
        if res.states:
            cov.update(states=len(res.states), transitions=res.transitions)
    if res.outcomes:
        cov["distinct_outcomes"] = len(res.outcomes)
    if res.extra:
        cov["counters"] = res.extra
    if extra_cov:
        cov.update(extra_cov)
    cov["known_findings_seen"] = sorted(s for s in res.viol if s in kn)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: states={len(res.states)} transitions={res.transitions} evaluations={res.evaluations} traces={res.traces} "
          f"nontrivial={len(res.nontrivial)} outcomes={len(res.outcomes)} wall={time.time()-t0:.1f}s")
    for s in sorted(res.viol):
        if s in kn:
            print(f"KNOWN-FINDING: property={prop} {kn[s]['what']}")
    if new:
        rp = f"{VERIF}/evidence/replay_{prop}.json"
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": TIER, "seed": SEED, "violations": [{"signature": s, **v} for s, v in sorted(new.items())]}, f, indent=1)
        for s, v in sorted(new.items())[:20]:
            print(f"  violated: {s}  (x{v['count']})  e.g. {v['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    # vacuity guard: a run that explored nothing decides nothing
    if level == "model_checking" and (len(res.states) < 2 or res.transitions < 2):
        raise CheckError("vacuous exploration")
    if level != "model_checking" and (res.evaluations < 2 or len(res.nontrivial) < 2):
        raise CheckError("vacuous exploration")
    return 0


def main(fn):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_")
    try:
        rc = fn(work, t0)
    except CheckError as e:
        print(f"CHECK-ERROR: {e}")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def simple(prop, level, harness, srcs, rule, flags=None, libs=("-lfmt",), incs=(), assumptions=(), nshards=None, defs=(), pre=None,
           exhaustive=True, post=None):
    """The common shape: one harness, some sources, all shards, one verdict."""
    def fn(work, t0):
        fl = flags if flags is not None else FAST
        ii = list(incs)
        if pre:
            ii += pre(work) or []
        b = Builder(work, fl, ii)
        paths = []
        for s in srcs:
            m = sorted(glob.glob(os.path.join(work if s.startswith("gen/") else REPO, s)))
            if s.startswith("gen/"):
                m = [p for p in m if not p.endswith("_sparse_test.cxx")]
            else:
                m = [p for p in m if is_lib_source(p)]
            paths += m
        # harness objects and library objects compile in one pool
        hs = [harness] if isinstance(harness, str) else list(harness)
        objs = b.compile([os.path.join(VERIF, "harness", h) for h in hs] + paths, extra=["-D" + d for d in defs])
        exe = os.path.join(work, "h")
        b.link(exe, objs[: len(hs)], objs[len(hs):], list(libs))
        res = Result()
        run_shards(res, exe, work, nshards)
        if post:
            post(work, res, exe)
        return conclude(prop, level, res, rule, t0, assumptions, exhaustive)
    main(fn)
