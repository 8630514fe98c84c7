"""Glue between the repository's EKF generator and the dense reference filter of harness/ekf/core.h:
reads a filter configuration and writes the C++ that fills and reads the generated types block by block."""
import os, re, yaml


def camel(s, cap=False):
    w = s.split("_")
    o = w[0] + "".join(x.capitalize() for x in w[1:])
    return o[0].upper() + o[1:] if cap else o


def snake(s): return re.sub(r"(?<!^)(?=[A-Z])", "_", s).lower()


DX = {"DQuat": 6, "Quat": 3, "SO3": 3, "SE3": 6}


class S:
    def __init__(s, name, kind):
        s.name = name
        m = re.match(r"Var<(\w+),\s*(\d+)>", kind)
        s.var = bool(m)
        s.type, s.max = (m.group(1), int(m.group(2))) if m else (kind, 1)
        s.base = DX.get(s.type) or int(s.type[3:])
        s.manifold = s.type in DX
        s.dx = s.base * s.max
        s.num = f"num_{snake(name)}"
        s.cpp = f"mc::math::{s.type}<double>" if s.manifold else f"mc::Vec<{s.base}>"


def load(text, filename):
    c = yaml.safe_load(text)
    ns = "::".join(c["namespaces"])
    st = [S(k, v) for k, v in c["state_composition"].items()]
    st = [s for s in st if not s.var] + [s for s in st if s.var]
    inp = [S(k, v) for k, v in c["input"].items()]
    return c, ns, st, inp, snake(camel(filename, True))


def glue(text, filename, dest, gate):
    """C++ text; gate(size, prob) is the gating threshold"""
    c, ns, st, inp, base = load(text, filename)
    var = [s for s in st if s.var]
    idx = {s.name: i for i, s in enumerate(st)}
    vidx = {s.name: i for i, s in enumerate(var)}
    N = lambda s: f"n[{vidx[s.name]}]"
    o = ["#define _GLIBCXX_ASSERTIONS 1", '#include "vh.h"', "#include <new>"]
    o += [f'#include "{i}"' for i in c.get("includes", [])]
    o += [f'#include "{dest}/{base}.h"', "using namespace mc;", f"namespace E = {ns};", '#include "ekf/core.h"']
    o.append("struct Cfg {")
    o.append(f"using State = E::{c['state_name']}; using Err = E::{c['error_state_name']}; using Input = E::{c['input_name']};")
    o.append(f"static constexpr int NV = {len(var)}, NS = {len(st)}, NI = {len(inp)};")
    o.append("static std::vector<SI> states() { return {" + ", ".join(f'{{{s.base},{s.max},{vidx[s.name] if s.var else -1}}}' for s in st) + "}; }")
    o.append("static std::vector<SI> inputs() { return {" + ", ".join(f"{{{s.base},1,-1}}" for s in inp) + "}; }")
    args = lambda ss: ", ".join(dict.fromkeys(N(s) for s in ss if s.var))

    def blk(r, cc): return f"B({idx[r.name]},{idx[cc.name]})"
    # dynamics jacobians
    for fn, which, cols, jac in (("fillA", 0, st, "StateJac"), ("fillB", 1, inp, "InputJac")):
        o.append(f"template <class F> static void {fn}(E::{jac}& j, const int* n, F B) {{")
        for r, cfg in c["dynamics"].items():
            rs = st[idx[r]]
            for cn in cfg[which]:
                cs = [s for s in cols if s.name == cn][0]
                ci = cols.index(cs)
                nm = f"d{camel(r, True)}_d{camel(cn, True)}"
                a = args([cs, rs])
                o.append(f"  j.{nm}{'(' + a + ')' if rs.var or cs.var else ''} = B({idx[r]},{ci});")
        o.append("}")
        o.append(f"static bool in_{fn[-1]}(int r, int cc) {{ static const std::set<std::pair<int,int>> s = {{" + ", ".join(
            f"{{{idx[r]},{[s.name for s in cols].index(cn)}}}" for r, cfg in c["dynamics"].items() for cn in cfg[which]) + "}; return s.count({r,cc}); }")
    # covariance
    for fn, const, fmt in (("fillCov", "", "c.{m} = B({r},{c});"), ("readCov", "const ", "B({r},{c}, c.{m});")):
        o.append(f"template <class F> static void {fn}({const}E::Covariance& c, const int* n, F B) {{")
        for i, r in enumerate(st):
            for j, cs in enumerate(st):
                if j < i: continue
                m = f"{camel(r.name)}_{camel(cs.name)}"
                if r.var or cs.var: m += f"({args([r, cs])})"
                o.append("  " + fmt.format(m=m, r=i, c=j))
        o.append("}")
    vs = ", ".join(f"n[{i}]" for i in range(len(var)))
    o.append(f"static MatX denseCov(const E::Covariance& c, const int* n) {{ return c.dense({vs}); }}")
    o.append(f"static VecX denseErr(const Err& e, const int* n) {{ return e.dense({vs}); }}")
    o.append(f"static MatX denseA(const E::StateJac& e, const int* n) {{ return e.dense({vs}); }}")
    o.append(f"static MatX denseB(const E::InputJac& e, const int* n) {{ return e.dense({vs}); }}")
    o.append("template <class F> static void fillQx(E::ProcessCovariance& q, F v) {")
    o += [f"  q.{camel(s.name)} = v({i});" for i, s in enumerate(st)]
    o.append("}\ntemplate <class F> static void fillQu(E::InputCovariance& q, F v) {")
    o += [f"  q.{camel(s.name)} = v({i});" for i, s in enumerate(inp)]
    o.append("}\ntemplate <class F> static void fillErr(Err& e, const int* n, F v) {")
    for i, s in enumerate(st):
        o.append(f"  e.{s.name}_vec({N(s)}) = v({i});" if s.var else f"  e.{s.name} = v({i});")
    o.append("}\nstatic void setN(State& x, const int* n) {" + " ".join(f"x.{s.num} = n[{i}];" for i, s in enumerate(var)) + "}")
    o.append("static void getN(const State& x, int* n) {" + " ".join(f"n[{i}] = x.{s.num};" for i, s in enumerate(var)) + "}")
    # visit every active element of one / two states
    for nm, a, call in (("each", "State& x", "f({i}, {k}, x.{e});"), ("each2", "const State& x, const State& y", "f({i}, {k}, x.{e}, y.{e});")):
        o.append(f"template <class F> static void {nm}({a}, const int* n, F f) {{")
        for i, s in enumerate(st):
            if s.var: o.append(f"  for (int k = 0; k < {N(s)}; ++k) {{ {call.format(i=i, k='k', e=s.name + '[k]')} }}")
            else: o.append("  " + call.format(i=i, k=0, e=s.name))
        o.append("}")
    o.append("static void plusRef(const State& x, const VecX& d, const int* n, State& y) {\n  int o = 0; (void)o;")
    for i, s in enumerate(st):
        def one(e, s=s):
            seg = f"mc::Vec<{s.base}>(d.segment<{s.base}>(o))"
            return f"y.{e} = x.{e} * {s.cpp}::exp({seg}); o += {s.base};" if s.manifold else f"y.{e} = x.{e} + {seg}; o += {s.base};"
        o.append(f"  for (int k = 0; k < {N(s)}; ++k) {{ {one(s.name + '[k]')} }}" if s.var else "  " + one(s.name))
    o.append("  setN(y, n);\n}")
    o.append("template <class F> static void fillU(Input& u, F v) {" + " ".join(f"u.{s.name} = v({i});" for i, s in enumerate(inp)) + "}")
    o.append("static VecX denseU(const Input& u) { VecX v(" + "+".join(str(s.base) for s in inp) + "); int o = 0; (void)o;" +
             " ".join(f"v.segment<{s.base}>(o) = u.{s.name}; o += {s.base};" for s in inp) + " return v; }")
    mt = []
    for mi, (k, mc_) in enumerate(c["measurements"].items()):
        ms = S(k, mc_["type"])
        M = f"E::{camel(k)}Meas"
        t = f"M{mi}"
        mt.append(t)
        o.append(f"struct {t} {{ using M = {M}; static constexpr int ID = {mi}, BASE = {ms.base}, MAX = {ms.max}; "
                 f"static constexpr bool VAR = {str(ms.var).lower()}, DIS = {str(bool(mc_.get('disabled'))).lower()}; "
                 f"static constexpr double GATE = {gate(ms.dx, mc_['gating_probability'])}; static const char* name() {{ return \"{k}\"; }}")
        o.append("  static bool in(int s) { static const std::set<int> t = {" + ", ".join(str(idx[x]) for x in mc_["states"]) + "}; return t.count(s); }")
        o.append("  template <class F> static void fillH(M::Jac& j, const int* n, int m, F B) {")
        for sn in mc_["states"]:
            s = st[idx[sn]]
            nm = f"d{camel(sn, True)}"
            if ms.var:
                o.append(f"    j.{nm}_all({', '.join(([N(s)] if s.var else []) + ['m'])}) = B({idx[sn]});")
                # element accessors alias the same block
                o.append(f"    for (int i = 0; i < m; ++i) {{ auto b = j.{nm}({', '.join(['i'] + ([N(s)] if s.var else []))}); "
                         f"if (b.rows() != {ms.base} || !sameBits(b, B({idx[sn]}).middleRows(i * {ms.base}, {ms.base}))) "
                         f"vh::violation(\"an element of a measurement jacobian is not its rows\", \"{k} {sn}\"); }}")
            else:
                o.append(f"    j.{nm}{'(' + N(s) + ')' if s.var else ''} = B({idx[sn]});")
        o.append("  }")
        da = ", ".join((["m"] if ms.var else []) + ([f"n[{i}]" for i in range(len(var))]))
        o.append(f"  static MatX denseH(const M::Jac& j, const int* n, int m) {{ return j.dense({da}); }}")
        el = f"{ms.cpp}()" if not ms.manifold else f"{ms.cpp}::Identity()"
        z = f"{ms.cpp} z = {el};" + ("" if ms.manifold else " z.setConstant(0.25);")
        if "metadata" in mc_:
            ex = []
            for ty, _ in mc_["metadata"]:
                b = ty.replace("const", "").replace("&", "").strip()
                ex.append(f"*reinterpret_cast<const {b}*>(blob)" if "&" in ty else f"{b}(0)")
            z += "static char blob[1 << 14]; (void)blob; "
            val = "M::Data{z, " + ", ".join(ex) + "}"
        else: val = "z"
        if ms.var: o.append(f"  static M::ZType z(int m) {{ {z} M::ZType v; v.reserve(m); for (int i = 0; i < m; ++i) v.push_back({val}); return v; }}")
        else: o.append(f"  static M::ZType z(int) {{ {z} return {val}; }}")
        o.append("};")
    o.append("};")
    ns0 = "".join(f"namespace {x} {{" for x in c["namespaces"])
    ns1 = "}" * len(c["namespaces"])
    o.append(f"{ns0} {c['error_state_name']} dynamics(const {c['state_name']}& x, const {c['input_name']}& u, StateJac* a, InputJac* b) {{ return userDynamics<Cfg>(x, u, a, b); }}")
    for t in mt:
        M = f"Cfg::{t}::M"
        o.append(f"template <> {M}::Residual h<{M}>(const {M}::ZType& z, const {c['state_name']}& x, {M}::Jac* j) {{ return userH<Cfg, Cfg::{t}>(z, x, j); }}")
    o.append(ns1)
    o.append(f"int main(int argc, char** argv) {{ return run<Cfg{''.join(', Cfg::' + t for t in mt)}>(argc > 1 ? argv[1] : \"\"); }}")
    return "\n".join(o) + "\n", base
