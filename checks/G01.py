#!/usr/bin/env python3
"""Symbolic algebra of the EKF generator: every expression up to a size, its simplified form evaluated against the exact value."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from vcheck_run import *
import hashlib, itertools, multiprocessing as mp, resource, signal
import numpy as np

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


class V:
    """what a rendered expression means in Eigen"""
    __slots__ = ("a",)

    def __init__(s, a): s.a = a

    def __mul__(s, o):
        if s.a.shape == (1, 1): return V(s.a[0, 0] * o.a)
        if o.a.shape == (1, 1): return V(s.a * o.a[0, 0])
        if s.a.shape[1] != o.a.shape[0]: raise ValueError("product of mismatched sizes")
        return V(s.a @ o.a)

    def __add__(s, o):
        if s.a.shape != o.a.shape: raise ValueError("sum of mismatched sizes")
        return V(s.a + o.a)

    def __sub__(s, o):
        if s.a.shape != o.a.shape: raise ValueError("difference of mismatched sizes")
        return V(s.a - o.a)

    def __neg__(s): return V(-s.a)
    def transpose(s): return V(s.a.T)


SH = {"A": (3, 3), "B": (3, 3), "C": (3, 3), "F": (3, 4), "G": (4, 3), "v": (3, 1), "s": (1, 1), "t": (1, 1)}
rng = np.random.RandomState(20)
ENV = {k: V(rng.randint(-9, 10, size=sh).astype(float)) for k, sh in SH.items()}
ENV["s"].a[0, 0], ENV["t"].a[0, 0] = 3., 2.
for a in range(1, 6):
    ENV[f"I_{a}x{a}"] = V(np.eye(a))
    for b in range(1, 6):
        ENV[f"O_{a}x{b}"] = V(np.zeros((a, b)))
ENV["K"] = lambda x: V(np.array([[float(x)]]))
CACHE = {}


def ev(text):
    r = CACHE.get(text)
    if r is None:
        t = re.sub(r"(?<![\w.])0_(\d+)x(\d+)", r"O_\1x\2", text)
        t = re.sub(r"(?<![\w.])(\d+(\.\d+)?)(?![\w.])", r"K(\1)", t)
        r = eval(t, ENV)
        if len(CACHE) < 400000: CACHE[text] = r
    return r


class Hang(Exception):
    pass


def on_alarm(*_): raise Hang()


def same(x, v): return x.a.shape == v.a.shape and (x.a == v.a).all()


class Worker:
    def __init__(self):
        self.viol, self.states, self.outs, self.n, self.samples = {}, set(), set(), 0, []

    def bad(self, kind, what, *rest):
        v = self.viol.setdefault(kind, [0, ""])
        v[0] += 1
        d = " | ".join([what] + [str(r) for r in rest])
        if not v[1] or len(d) < len(v[1]): v[1] = d

    def check(self, what, e, v, subs=()):
        """e: the expression object, v: its value, subs: (object, value) of every operand it was built from"""
        from core.ekf.ekf_gen.symb_algebra import reduce
        self.n += 1
        signal.setitimer(signal.ITIMER_REAL, 5)
        try:
            if (e.rows, e.cols) != v.a.shape:
                self.bad("an expression reports the wrong shape", what, e.shape); return
            x = e.render()
            self.states.add(hashlib.blake2b(x.encode(), digest_size=8).digest())
            if not same(ev(x), v):
                self.bad("a rendered expression has another value", what, x); return
            q = reduce(e).render()
            self.outs.add(hashlib.blake2b(q.encode(), digest_size=8).digest())
            if len(self.samples) < 4 and q != x: self.samples.append(f"{what}: {x} -> {q}")
            if not same(ev(q), v):
                self.bad("a simplified expression has another value", what, x, q); return
            for o, ov in subs:
                if not same(ev(o.render()), ov):
                    self.bad("simplifying changed an expression it shares terms with", what, o.render()); return
        except Hang:
            self.bad("simplifying an expression does not end", what)
        except (MemoryError, RecursionError) as ex:
            self.bad("simplifying an expression does not end", what, type(ex).__name__)
        except Exception as ex:
            self.bad("an expression cannot be simplified or rendered", what, repr(ex))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def leaf(n):
    from core.ekf.ekf_gen.symb_matrix import ConstBlock
    if n == "I": return ConstBlock("I", 3, 3), ENV["I_3x3"]
    if n == "0": return ConstBlock("0", 3, 3), ENV["O_3x3"]
    if n == "h": return ConstBlock("0.5", 1, 1), V(np.array([[.5]]))
    if n.endswith("T"):
        e, v = leaf(n[0])
        return e.T, v.transpose()
    return ConstBlock(n, *SH[n]), ENV[n]


def shape(t, memo={}):
    """shape of a tree, None when it is not well formed"""
    if isinstance(t, str): return (3, 3) if t in "I0" else (1, 1) if t == "h" else SH[t[0]][::-1] if t.endswith("T") else SH[t]
    a, b = shape(t[1]), shape(t[2])
    if a is None or b is None: return None
    if t[0] == "*":
        if a == (1, 1): return b
        if b == (1, 1): return a
        return (a[0], b[1]) if a[1] == b[0] and (a[0], b[1]) != (1, 1) else None
    return a if a == b else None


def trees(n, leaves, ops):
    if n == 1:
        yield from leaves
        return
    for k in range(1, n):
        left = list(trees(k, leaves, ops))
        for b in trees(n - k, leaves, ops):
            for a in left:
                for o in ops: yield (o, a, b)


def build(t, subs):
    if isinstance(t, str): r = leaf(t)
    else:
        a, va = build(t[1], subs)
        b, vb = build(t[2], subs)
        r = (a * b, va * vb) if t[0] == "*" else (a + b, va + vb) if t[0] == "+" else (a - b, va - vb)
    subs.append(r)
    return r


def show(t): return t if isinstance(t, str) else f"({show(t[1])}{t[0]}{show(t[2])})"


def run_trees(w, sh, ns, n, leaves, ops):
    for i, t in enumerate(trees(n, leaves, ops)):
        if i % ns != sh or shape(t) is None: continue
        subs = []
        try:
            e, v = build(t, subs)
        except Exception as ex:
            w.bad("an expression cannot be built", show(t), repr(ex))
            continue
        w.check(show(t), e, v, subs[:-1])


def monomials(letters, maxlen):
    for k in range(1, maxlen + 1):
        for m in itertools.product(letters, repeat=k):
            if any(SH.get(c, (1, 1)) != (1, 1) for c in m): yield m


def run_sums(w, sh, ns, letters, maxlen, terms, signs):
    ms = list(monomials(letters, maxlen))
    pre = {}
    for i, combo in enumerate(itertools.product(ms, repeat=terms)):
        if i % ns != sh: continue
        for sg in itertools.product((1, -1), repeat=terms - 1) if signs else [(1,) * (terms - 1)]:
            parts = []
            what = ""
            try:
                e = v = None
                for m, s in zip(combo, (1,) + sg):
                    me, mv = leaf(m[0])
                    for c in m[1:]:
                        ce, cv = leaf(c)
                        me, mv = me * ce, mv * cv
                    parts.append((me, mv))
                    what += ("" if e is None else "+" if s > 0 else "-") + "*".join(m)
                    if e is None: e, v = me, mv
                    elif s > 0: e, v = e + me, v + mv
                    else: e, v = e - me, v - mv
            except Exception as ex:
                w.bad("an expression cannot be built", what, repr(ex))
                continue
            w.check(what, e, v, parts)


def run_blocks(w, sh, ns, sizes, isizes, bmasks):
    """the products the generator forms, for every sparsity pattern of the dynamics"""
    from core.ekf.ekf_gen.symb_matrix import ConstBlock
    from core.ekf.ekf_gen.symb_block_matrix import SymBlockMatrix
    n, m = len(sizes), len(isizes)
    r2 = np.random.RandomState(7)
    vals = {}

    def val(name, r, c):
        if name not in vals: vals[name] = r2.randint(-3, 4, size=(r, c)).astype(float)
        return vals[name]

    def block(prefix, rs, cs, mask, diag=None):
        mat, dense = [], np.zeros((sum(rs), sum(cs)))
        for i, r in enumerate(rs):
            row = []
            for j, c in enumerate(cs):
                r0, c0 = sum(rs[:i]), sum(cs[:j])
                if mask(i, j):
                    nm = f"{prefix}_{i}_{j}" if diag != "I" else "I"
                    x = val(nm, r, c) if diag != "I" else np.eye(r)
                    if diag != "I": ENV[nm] = V(x)
                    dense[r0:r0 + r, c0:c0 + c] = x
                else:
                    nm = "0"
                row.append(ConstBlock(nm, r, c))
            mat.append(row)
        return SymBlockMatrix(mat), dense

    for nm in ("A", "B", "P", "Q", "H"):
        for i in range(n):
            for j in range(n): val(f"{nm}{n}_{i}_{j}", sizes[i], sizes[j])
    dt, half = ConstBlock("t", 1, 1), ConstBlock("0.5", 1, 1)
    tv = ENV["t"].a[0, 0]

    def each(what, mat, dense, keep):
        # keep: other matrices that must not be altered
        r0 = 0
        for i in range(mat.rows):
            c0 = 0
            for j in range(mat.cols):
                e = mat[i, j]
                v = V(dense[r0:r0 + e.rows, c0:c0 + e.cols])
                w.check(f"{what}[{i},{j}]", e, v, [(k[i2, j2], V(kd)) for k, i2, j2, kd in keep])
                c0 += e.cols
            r0 += mat[i, 0].rows

    def blocks(mat, dense):
        out, r0 = [], 0
        for i in range(mat.rows):
            c0 = 0
            for j in range(mat.cols):
                e = mat[i, j]
                out.append((mat, i, j, dense[r0:r0 + e.rows, c0:c0 + e.cols]))
                c0 += e.cols
            r0 += mat[i, 0].rows
        return out

    for am in range(sh, 1 << (n * n), ns):
        A, Ad = block(f"A{n}", sizes, sizes, lambda i, j: am >> (i * n + j) & 1)
        I, Id = block("I", sizes, sizes, lambda i, j: i == j, "I")
        P, Pd = block(f"P{n}", sizes, sizes, lambda i, j: True)
        try:
            Abar = I + A * dt + A * A * dt * dt * half
            Abard = Id + Ad * tv + Ad @ Ad * tv * tv * .5
            keep = blocks(Abar, Abard)
            each(f"I+A*t+A*A*t*t/2 with sparsity {am:0{n*n}b}", Abar, Abard, keep)
            X = Abar * P * Abar.T
            each(f"Abar*P*Abar.T with sparsity {am:0{n*n}b}", X, Abard @ Pd @ Abard.T, keep[:n])
            each(f"P-A*P with sparsity {am:0{n*n}b}", P - A * P, Pd - Ad @ Pd, ())
            for bm in bmasks:
                B, Bd = block(f"B{n}{m}", sizes, isizes, lambda i, j: bm >> (i * m + j) & 1)
                Q, Qd = block(f"Q{n}{m}", isizes, isizes, lambda i, j: i == j)
                Bbar = (I + A * dt * half) * B * dt
                Bbard = (Id + Ad * tv * .5) @ Bd * tv
                each(f"(I+A*t/2)*B*t with sparsity {am:0{n*n}b},{bm:b}", Bbar, Bbard, ())
                each(f"Bbar*Q*Bbar.T with sparsity {am:0{n*n}b},{bm:b}", Bbar * Q * Bbar.T, Bbard @ Qd @ Bbard.T, ())
        except Exception as ex:
            w.bad("a block matrix product cannot be formed", f"sparsity {am:b}", repr(ex))


def work(args):
    i, ns = args
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    w = Worker()
    thorough = TIER == "thorough"
    for n in (1, 2, 3): run_trees(w, i, ns, n, ["A", "F", "G", "v", "t", "h", "I", "0", "AT"], "+*-")
    run_trees(w, i, ns, 4, ["A", "B", "t", "I", "AT"], "+*-")
    run_sums(w, i, ns, "ABth", 3, 2, True)
    run_sums(w, i, ns, "ABt", 2 if not thorough else 3, 4, False)
    run_sums(w, i, ns, "ABts", 2, 3, True)
    run_sums(w, i, ns, "ABt", 3, 3, False)
    run_blocks(w, i, ns, (3, 2), (3, 2), range(16))
    run_blocks(w, i, ns, (3, 2, 4), (3,), range(8) if thorough else (7, 2))
    if thorough:
        run_trees(w, i, ns, 5, ["A", "B", "t", "I"], "+*-")
        run_sums(w, i, ns, "ABth", 3, 3, True)
        run_sums(w, i, ns, "ABCt", 2, 4, True)
    return w.viol, b"".join(w.states), b"".join(w.outs), w.n, w.samples


def fn(workdir, t0):
    for k in [k for k in sys.modules if k == "core" or k.startswith("core.")]: del sys.modules[k]
    try:
        import core.ekf.ekf_gen.symb_block_matrix, core.ekf.ekf_gen.symb_algebra  # noqa
    except Exception as ex:
        raise CheckError(f"cannot import the generator: {ex!r}")
    ns = NPROC * 4
    res = Result()
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=1) as p:
        for viol, st, outs, n, samples in p.imap_unordered(work, [(i, ns) for i in range(ns)]):
            res.states.update(st[j:j + 8] for j in range(0, len(st), 8))
            res.outcomes.update(outs[j:j + 8] for j in range(0, len(outs), 8))
            res.transitions += n
            res.evaluations += n
            res.traces += n
            res.samples += samples
            for s, (c, d) in viol.items(): res.add_viol(s, d, c)
    res.samples = sorted(set(res.samples))[:8]
    return conclude("G01", "model_checking", res,
                    "every well formed symbolic expression up to 4 leaves, every sum of up to 4 products, every block product of the "
                    "generator for every sparsity: rendered and simplified on the code, both evaluated exactly and compared with the "
                    "value of the operation tree", t0,
                    ["numeric identity over integer matrices of full rank decides symbolic identity (exact arithmetic)"])


if __name__ == "__main__":
    main(fn)
