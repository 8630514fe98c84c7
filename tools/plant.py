#!/usr/bin/env python3
"""Development aid (no check uses it): validates seeded/<id>: patch applies, builds, stable tests pass, demo fails with it and passes without,
and tells which checks catch it. Everything happens in a bind-mounted scratch copy of /repo inside a user namespace.
usage: plant.py ID [ID...] [--checks=P1,P2] [--notest]"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in sys.argv[1:] if a.startswith("--"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
os.makedirs(W, exist_ok=True)
R = W + "/r"
def ns(cmd, timeout=2400):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {R} /repo && mkdir -p {W}/tmp && cd /repo && {cmd}"], capture_output=True, text=True, timeout=timeout)
def sync():
    if not os.path.exists(R):
        subprocess.run(["cp", "-a", "/repo", R], check=True)
    subprocess.run(["rsync", "-rlp", "--delete", "--checksum", "--exclude=_build", "--exclude=.git", "/repo/", R + "/"], check=True) if shutil.which("rsync") else sync2()
def sync2():
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", R, "reset", "-q", "--hard", h], check=True)
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    sync()
    demo = f"{W}/demo_{i}"
    shutil.rmtree(demo, ignore_errors=True); os.makedirs(demo)
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{d}/{f}", demo)
    r0 = ns(f"timeout 300 bash {demo}/demo.sh")
    a = subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr); continue
    miss = "skipped"
    if "notest" not in opt:
        t = ns(f"timeout 2000 bash /opt/vp/test.sh {W}/t_{i}.json")
        p = set(json.load(open(f"{W}/t_{i}.json"))["passed"])
        miss = sorted(stable - p)
    r1 = ns(f"timeout 300 bash {demo}/demo.sh")
    caught = {}
    for c in (opt["checks"].split(",") if "checks" in opt else [meta["property"]]):
        k = ns(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/{c}.py")
        caught[c] = (k.returncode, [l for l in k.stdout.splitlines() if "VIOLATION" in l or "CHECK-ERROR" in l or "violated" in l][:3])
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    print(json.dumps({"id": i, "demo_clean": r0.returncode, "demo_bug": r1.returncode, "stable_failing": miss, "checks": caught}, indent=1))
    if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-1500:])
    sys.stdout.flush()
