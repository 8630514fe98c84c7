"""Configurations for the generated filters, and the runs of harness/ekf/core.h over them (K01, K02)."""
import concurrent.futures as cf, os
from scipy.stats import chi2
from vcheck_run import *
import ekfcfg

HEAD = """namespaces: [mc, ekf, {ns}]
includes: [common/defs.h, common/math/dquat.h, common/math/quat.h, common/math/so3.h, common/math/se3.h, common/utctime.h]
state_name: State
error_state_name: ErrorState
input_name: Input
"""
CONFIGS = {
    # no variable states; chain a -> b -> c
    "cfg_fixed": HEAD.format(ns="fixed") + """
state_composition: {a: Vec1, b: Vec3, c: Vec2}
input: {u: Vec2, w: Vec1}
dynamics:
  a: [[b], [u]]
  b: [[b, c], [w]]
  c: [[], []]
measurements:
  one: {type: Vec1, gating_probability: 0.9, states: [a, c]}
  two: {type: Vec2, gating_probability: 0.5, states: [b]}
  three: {type: Vec3, gating_probability: 1.0, states: [c, b, a]}
""",
    # variable states declared first and in between, coupled to one another and to fixed states in both directions
    "cfg_var": HEAD.format(ns="var") + """
state_composition: {f: "Var<Vec1, 4>", q: Quat, g: "Var<Vec2, 3>", v: Vec2}
input: {u: Vec2, w: Vec1}
dynamics:
  f: [[f, q, g], [u]]
  q: [[v, q], [w]]
  g: [[f, v], [w]]
  v: [[f, v], [u]]
measurements:
  list: {type: "Var<Vec2, 3>", gating_probability: 0.95, states: [g, q]}
  flat: {type: Vec2, gating_probability: 0.99, states: [f, v, g]}
  hold: {type: "Var<Vec1, 4>", gating_probability: 1.0, states: [f]}
  "off": {type: Vec3, gating_probability: 0.7, states: [q, f], disabled: True}
""",
    # rotations and poses, and lists of rotations
    "cfg_lie": HEAD.format(ns="lie") + """
state_composition: {r: SO3, p: SE3, k: Vec1, m: "Var<Quat, 2>"}
input: {u: Vec3}
dynamics:
  r: [[k, m], [u]]
  p: [[p, r], [u]]
  k: [[p], []]
  m: [[m, r], [u]]
measurements:
  rot: {type: SO3, gating_probability: 0.9, states: [r, m]}
  turns: {type: "Var<Quat, 2>", gating_probability: 0.8, states: [m, p]}
  tag: {type: Vec2, gating_probability: 0.999, states: [k, p], metadata: [[int, ident]]}
""",
    # everything depends on everything
    "cfg_dense": HEAD.format(ns="dense") + """
state_composition: {a: Vec2, b: Vec1, c: "Var<Vec1, 2>"}
input: {u: Vec1, w: Vec2}
dynamics:
  a: [[a, b, c], [u, w]]
  b: [[a, b, c], [u, w]]
  c: [[a, b, c], [u, w]]
measurements:
  all: {type: Vec3, gating_probability: 0.01, states: [a, b, c]}
  many: {type: "Var<Vec1, 5>", gating_probability: 0.95, states: [c, a, b], metadata: [["const int", "n"]]}
""",
}


def gate(size, prob):
    return "1e300" if prob >= 1 else repr(float(chi2.ppf(prob, max(size - 1, 1))))


def build(work, name, text, rel=None, opt=("-O1", "-g0")):
    """name -> executable"""
    d = os.path.join(work, name)
    os.makedirs(d)
    y = os.path.join(d, name + ".yaml")
    open(y, "w").write(text)
    inc = ekf_gen(d, None, "core/ekf", y)
    t, base = ekfcfg.glue(text, name, "core/ekf", gate)
    main = os.path.join(d, "glue.cxx")
    open(main, "w").write(t)
    b = Builder(d, list(opt) + ["-fno-lifetime-dse"], [inc])
    gen = [p for p in glob.glob(inc + "/core/ekf/*.cxx") if "_sparse_test" not in p]
    lib = [REPO + "/" + s for s in ("common/quantized_time.cxx", "common/utctime.cxx", "common/check.cxx", "common/print.cxx", "common/error.cxx", "common/random.cxx")]
    objs = b.compile([main] + gen + [s for s in lib if os.path.exists(s)])
    exe = os.path.join(d, "h")
    b.link(exe, objs[:1], objs[1:], ["-lfmt", "-lyaml-cpp", "-lstdc++fs", "-lglog"])
    return exe


def go(prop, mode, rule, assumptions, repo_cfgs, depth):
    def fn(work, t0):
        res = Result()
        cfgs = dict(CONFIGS)
        for n, p in repo_cfgs:
            cfgs[n] = open(os.path.join(REPO, p)).read()
        with cf.ThreadPoolExecutor(4) as ex:
            exes = {n: ex.submit(build, work, n, t) for n, t in cfgs.items()}
        for n, e in exes.items():
            dd = depth.get(n, depth[None])
            e_ = {"K_MODE": mode, "K_DEPTH": str(dd[0]), "K_CAP": str(dd[1])}
            run_shards(res, e.result(), work, extra_env=e_, args=[n], tag=n)
        return conclude(prop, "model_checking", res, rule, t0, assumptions)
    main(fn)
