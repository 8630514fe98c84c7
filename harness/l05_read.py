"""Reads the logs written by l05.cxx with the repository's own Python reader: same streams, same records."""
import json, sys, contextlib, io, os
import importlib.util
repo = sys.argv[1]
spec = importlib.util.spec_from_file_location("log_reader", os.path.join(repo, "common/logging/log_reader.py"))
lr = importlib.util.module_from_spec(spec); spec.loader.exec_module(lr)
import numpy as np
bad, n, refused = [], 0, 0


def first(rec):
    """the number that identifies a record"""
    for name in ("b", "x"):
        if name in rec.dtype.names:
            return float(rec[name])
    x = rec["imu"]["accel"] if "imu" in rec.dtype.names else rec["accel"]
    return float(np.asarray(x).ravel()[0])


for e in json.load(open(sys.argv[2])):
    for norm in (False, True):
        n += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                log = lr.load(e["open"], normalize_time=norm)
        except Exception as ex:
            if not e["refuse"]:
                bad.append((f"the Python reader refuses {e['what']}", f"{e['open']}: {ex!r}"[:300]))
            refused += 1
            continue
        if e["refuse"]:
            bad.append((f"the Python reader accepts {e['what']}", e["open"])); continue
        if sorted(str(k) for k in log) != sorted(e["streams"]):
            bad.append((f"the Python reader: streams of {e['what']}", f"{e['open']}: {sorted(log)} for {sorted(e['streams'])}")); continue
        for k, d in log.items():
            want = e["streams"][str(k)]
            if len(d) != len(want):
                bad.append((f"the Python reader: number of records of {e['what']}", f"{e['open']} stream {k}: {len(d)} for {len(want)}")); continue
            for i, (s, ns, v) in enumerate(want):
                r = d[i]
                st = r["stamp"] if norm else r["t"]
                ok = int(st["sec"]) == s and int(st["nsec"]) == ns
                if norm:
                    ok = ok and abs(float(r["t"]) - (s + ns * 1e-9)) < 1e-6
                try:
                    ok = ok and first(r) == v
                except Exception as ex:
                    ok = False
                if not ok:
                    bad.append((f"the Python reader: record of {e['what']}", f"{e['open']} stream {k} record {i}: {r}"[:300])); break
json.dump({"bad": bad, "loads": n, "refused": refused}, sys.stdout)
