"""Reads the logs written by l03.cxx with the repository's own Python reader and compares every leaf."""
import json, sys, re, contextlib, io, os
import importlib.util
repo = sys.argv[1]
spec = importlib.util.spec_from_file_location("log_reader", os.path.join(repo, "common/logging/log_reader.py"))
lr = importlib.util.module_from_spec(spec); spec.loader.exec_module(lr)
import numpy as np
out, leaves, traces = [], 0, 0


def get(rec, path):
    m = re.match(r"([^\[]+)(?:\[(\d+),(\d+)\])?$", path)
    x = rec
    for k in m.group(1).split("."):
        if x.dtype.names is None or k not in x.dtype.names:
            # vectors may be described as one field or as two halves
            if k == "angular" and x.shape[-2:] == (6, 1):
                x = x[:3]; continue
            if k == "linear" and x.shape[-2:] == (6, 1):
                x = x[3:]; continue
            return None
        x = x[k]
    if m.group(2) is not None:
        r, c = int(m.group(2)), int(m.group(3))
        x = np.asarray(x)
        if x.ndim == 2:
            return x[r, c] if r < x.shape[0] and c < x.shape[1] else None
        if x.ndim == 1 and c == 0:
            return x[r] if r < x.shape[0] else None
        return None
    return x


for f in sys.argv[2:]:
    e = json.load(open(f))
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            log = lr.load(e["root"], normalize_time=False)
        except Exception as ex:
            out.append(("the Python reader fails on a log", repr(ex)[:300])); continue
    # the default call replaces the time stamp by seconds
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            nlog = lr.load(e["root"])
        except Exception as ex:
            out.append(("the Python reader fails on a log (normalized time)", repr(ex)[:300])); nlog = {}
    for key, d in nlog.items():
        recs = e["streams"].get(str(key), {"records": []})["records"]
        for i, rec in enumerate(recs):
            want = int.from_bytes(bytes.fromhex(rec["t.sec"].split("/")[0]), "little", signed=True) + int.from_bytes(bytes.fromhex(rec["t.nsec"].split("/")[0]), "little", signed=True) / 1e9
            if i >= len(d) or abs(d["t"][i] - want) > 1e-6:
                out.append(("normalized time", f"stream {key} record {i}")); break
            leaves += 1
    for key, s in e["streams"].items():
        traces += 1
        data = log.get(int(key))
        if data is None:
            out.append((f"stream missing for the Python reader", s["types"])); continue
        if len(data) != len(s["records"]):
            out.append((f"number of records seen by the Python reader, stream of {s['types'].split(',')}", f"{len(data)} for {len(s['records'])}")); continue
        for i, rec in enumerate(s["records"]):
            bad = None
            for p, h in rec.items():
                leaves += 1
                v = get(data[i], p)
                if v is None:
                    bad = (p, "no such leaf"); break
                h, kind = h.split("/")
                b = np.asarray(v).tobytes().hex()
                if np.asarray(v).dtype.kind != kind:
                    bad = (p, f"kind {np.asarray(v).dtype.kind} for {kind}"); break
                if h.startswith("~"):
                    want = np.frombuffer(bytes.fromhex(h[1:]), dtype=np.float64)[0]
                    if abs(want - float(v)) > 1e-9 * (1 + abs(want)):
                        bad = (p, f"{v} for {want}"); break
                elif b != h:
                    bad = (p, f"{b} for {h}"); break
            if bad:
                ty = s["types"].split(",")
                t = {"a": ty[0], "b": ty[1]}.get(bad[0][0], "stamp")
                leaf = re.sub(r"\[.*", "[r,c]", bad[0][2:])
                out.append((f"Python reader: {t} {leaf}", f"stream of {s['types']} record {i} leaf {bad[0]}: {bad[1]}")); break
json.dump({"bad": out, "leaves": leaves, "traces": traces}, sys.stdout)
