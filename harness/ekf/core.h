// Dense reference for a generated filter, and the exploration of operation sequences on both.
#pragma once
#include <Eigen/Dense>
#include <csetjmp>
#include <set>
using namespace vh;
using VecX = Eigen::VectorXd;
using MatX = Eigen::MatrixXd;

static bool g_catch = false;
static double BAD = NAN;   // the value that is not finite
static jmp_buf g_died;
extern "C" void exit(int rc)   // mc::check ends the program through exit
{
    if (g_catch) { g_catch = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}

struct SI { int base, max, var; };

// deterministic values
struct Rnd
{
    uint64_t s;
    explicit Rnd(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 12345) {}
    double u() { s = s * 6364136223846793005ull + 1442695040888963407ull; return double(int64_t(s) >> 12) / double(1ll << 51); }
    MatX m(int r, int c) { MatX o(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o(i, j) = u(); return o; }
};
static bool sameBits(const MatX& a, const MatX& b)
{
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j) || (a(i, j) != a(i, j) && b(i, j) != b(i, j)))) return false;
    return true;
}
template <class T> static void paint(T& buf) { memset(&buf, 0xFF, sizeof buf); }
// leaves NaN patterns where the next call puts its locals
static __attribute__((noinline)) void paintStack()
{
    volatile char b[1 << 19];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)0xFF;
}

template <class C> struct Layout
{
    int n[C::NV + 1];
    std::vector<int> off, len, ioff, ilen;
    int dof = 0, idof = 0;
    explicit Layout(const std::vector<int>& nn)
    {
        for (int i = 0; i < C::NV; ++i) n[i] = nn[i];
        for (const auto& s : C::states()) { off.push_back(dof); len.push_back(s.base * (s.var < 0 ? 1 : n[s.var])); dof += len.back(); }
        for (const auto& s : C::inputs()) { ioff.push_back(idof); ilen.push_back(s.base); idof += s.base; }
    }
    MatX mask(MatX m, bool input) const
    {
        for (int r = 0; r < C::NS; ++r) for (int c = 0; c < (input ? C::NI : C::NS); ++c)
            if (!(input ? C::in_B(r, c) : C::in_A(r, c)))
                m.block(off[r], input ? ioff[c] : off[c], len[r], input ? ilen[c] : len[c]).setZero();
        return m;
    }
};

// what the user's functions hand to the filter
template <class C> struct User
{
    static const Layout<C>*& L() { static const Layout<C>* l; return l; }
    static MatX& A() { static MatX m; return m; }
    static MatX& B() { static MatX m; return m; }
    static VecX& xd() { static VecX m; return m; }
    static MatX& H() { static MatX m; return m; }
    static VecX& res() { static VecX m; return m; }
    static int& m() { static int i; return i; }
};
template <class C> typename C::Err userDynamics(const typename C::State&, const typename C::Input&, E::StateJac* a, E::InputJac* b)
{
    const auto& L = *User<C>::L();
    if (a) C::fillA(*a, L.n, [&](int r, int c) { return MatX(User<C>::A().block(L.off[r], L.off[c], L.len[r], L.len[c])); });
    if (b) C::fillB(*b, L.n, [&](int r, int c) { return MatX(User<C>::B().block(L.off[r], L.ioff[c], L.len[r], L.ilen[c])); });
    typename C::Err e;
    C::fillErr(e, L.n, [&](int s) { return VecX(User<C>::xd().segment(L.off[s], L.len[s])); });
    return e;
}
template <class C, class M> typename M::M::Residual userH(const typename M::M::ZType&, const typename C::State&, typename M::M::Jac* j)
{
    const auto& L = *User<C>::L();
    if (j) M::fillH(*j, L.n, User<C>::m(), [&](int s) { return MatX(User<C>::H().middleCols(L.off[s], L.len[s])); });
    typename M::M::Residual r;
    r.setConstant(1e3);   // what lies beyond the measurement is nobody's business
    r.head(User<C>::res().size()) = User<C>::res();
    return r;
}


template <class V> static void randomise(V& v, Rnd& r)
{
    if constexpr (detail::is_eigen<V>::value) { for (int i = 0; i < v.size(); ++i) v(i) = r.u() * 3; }
    else
    {
        auto d = V::Identity().log();
        for (int i = 0; i < d.size(); ++i) d(i) = r.u();
        v = V::exp(d);
    }
}
template <class V> static double apart(const V& a, const V& b)
{
    double e;
    if constexpr (detail::is_eigen<V>::value) e = (a - b).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() / (1 + b.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    else e = (a.inverse() * b).log().norm();
    return e == e ? e : 1e300;
}
static double rel(const MatX& a, const MatX& b)
{
    if (!a.size()) return a.rows() == b.rows() && a.cols() == b.cols() ? 0 : 1e300;
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
    const double e = (a - b).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() / (1 + b.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    return e == e ? e : 1e300;
}
static constexpr double TOL = 1e-9;

struct Snap { alignas(64) char b[sizeof(E::Snapshot)]; E::Snapshot& s() { return *reinterpret_cast<E::Snapshot*>(b); } };
using SnapP = std::unique_ptr<Snap>;
static SnapP fresh()
{
    SnapP p(new Snap);
    paint(p->b);
    new (p->b) E::Snapshot;
    return p;
}

template <class C> struct Node
{
    SnapP impl;
    typename C::State x;
    MatX P;
    VecX u;
    UTCTime t;
};

template <class C, class... Ms> struct Explore
{
    using State = typename C::State;
    Layout<C> L;
    std::string name, what;
    int depth;
    explicit Explore(const std::vector<int>& n, const std::string& nm, int d) : L(n), name(nm), depth(d)
    {
        User<C>::L() = &L;
        what = nm + " sizes";
        for (int i : n) what += " " + std::to_string(i);
    }

    void setCov(E::Covariance& c, const MatX& P) const
    {
        C::fillCov(c, L.n, [&](int r, int k) { return MatX(P.block(L.off[r], L.off[k], L.len[r], L.len[k])); });
    }
    static VecX vecU(const typename C::Input& u) { return C::denseU(u); }
    void setU(typename C::Input& u, const VecX& v) const
    {
        C::fillU(u, [&](int i) { return VecX(v.segment(L.ioff[i], L.ilen[i])); });
    }
    Node<C> start(uint64_t seed) const
    {
        Node<C> o;
        Rnd r(seed);
        o.impl = fresh();
        C::setN(o.x, L.n);
        C::each(o.x, L.n, [&](int, int, auto& e) { randomise(e, r); });
        o.t = UTCTime(1600000000, 123456789);
        o.x.t = o.t;
        const MatX a = r.m(L.dof, L.dof);
        o.P = a * a.transpose() * 0.1 + MatX::Identity(L.dof, L.dof);
        o.u = VecX(r.m(L.idof, 1));
        State& s = o.impl->s().x;
        C::setN(s, L.n);
        C::each2(o.x, o.x, L.n, [&](int, int, const auto&, const auto&) {});
        s = o.x;
        setCov(o.impl->s().cov, o.P);
        setU(o.impl->s().u, o.u);
        return o;
    }
    Node<C> copy(const Node<C>& p) const
    {
        Node<C> o;
        o.impl = fresh();
        o.impl->s() = p.impl->s();
        o.x = p.x; o.P = p.P; o.u = p.u; o.t = p.t;
        return o;
    }
    void compare(Node<C>& o, const std::string& op, const std::string& seq) const
    {
        E::Snapshot& s = o.impl->s();
        int n[C::NV + 1] = {};
        C::getN(s.x, n);
        for (int i = 0; i < C::NV; ++i) VH_EXPECT(n[i] == L.n[i], op + " changes the number of elements of a state", "%s %s", what.c_str(), seq.c_str());
        double e = 0;
        int wi = 0, wk = 0;
        C::each2(s.x, o.x, L.n, [&](int i, int k, const auto& a, const auto& b) { const double d = apart(a, b); if (d > e) e = d, wi = i, wk = k; });
        VH_EXPECT(e < TOL, op + " does not give the reference state", "%s %s: state %d element %d off by %g", what.c_str(), seq.c_str(), wi, wk, e);
        MatX Q = MatX::Constant(L.dof, L.dof, NAN);
        C::readCov(s.cov, L.n, [&](int r, int c, const auto& b) {
            if (b.rows() != L.len[r] || b.cols() != L.len[c]) { violation("a covariance block has the wrong size", what); return; }
            Q.block(L.off[r], L.off[c], L.len[r], L.len[c]) = b;
            if (r != c) Q.block(L.off[c], L.off[r], L.len[c], L.len[r]) = MatX(b).transpose();
        });
        e = rel(Q, o.P);
        VH_EXPECT(e < TOL, op + " does not give the reference covariance", "%s %s: off by %g", what.c_str(), seq.c_str(), e);
        VH_EXPECT(rel(Q, Q.transpose()) < TOL, op + " leaves the covariance asymmetric", "%s %s", what.c_str(), seq.c_str());
        VH_EXPECT(rel(vecU(s.u), o.u) == 0, op + " does not keep the input", "%s %s", what.c_str(), seq.c_str());
        const int64_t dt = std::llabs(int64_t(s.x.t.sec - o.t.sec) * 1000000000ll + (s.x.t.nsec - o.t.nsec));
        VH_EXPECT(dt <= 1, op + " does not give the state the time it belongs to", "%s %s: %lld ns", what.c_str(), seq.c_str(), (long long)dt);
    }

    // one prediction on both
    Node<C> predict(const Node<C>& p, int64_t dt_ns, uint64_t seed, std::string& op) const
    {
        Rnd r(seed);
        User<C>::A() = L.mask(r.m(L.dof, L.dof), false);
        User<C>::B() = L.mask(r.m(L.dof, L.idof), true);
        User<C>::xd() = VecX(r.m(L.dof, 1));
        Node<C> o;
        o.impl = fresh();
        o.u = VecX(r.m(L.idof, 1));
        o.t = p.t;
        o.t.nsec += dt_ns;
        while (o.t.nsec >= 1000000000) { o.t.nsec -= 1000000000; ++o.t.sec; }
        const double dt = dt_ns * 1e-9;
        VecX qx(L.dof), qu = VecX(r.m(L.idof, 1).cwiseAbs());
        E::ProcessCovariance Qx;
        const auto st = C::states();
        C::fillQx(Qx, [&](int i) {
            VecX v = r.m(st[i].base, 1).cwiseAbs();
            for (int k = 0; k < L.len[i]; ++k) qx(L.off[i] + k) = v(k % st[i].base);
            return v;
        });
        E::InputCovariance Qu;
        C::fillQu(Qu, [&](int i) { return VecX(qu.segment(L.ioff[i], L.ilen[i])); });
        typename C::Input u;
        setU(u, o.u);
        const MatX &A = User<C>::A(), &B = User<C>::B(), I = MatX::Identity(L.dof, L.dof);
        const MatX Ab = I + A * dt + A * A * (0.5 * dt * dt), Bb = (I + A * (0.5 * dt)) * B * dt;
        o.P = Ab * p.P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
        o.P.diagonal() += qx;
        o.x = p.x;
        C::plusRef(p.x, User<C>::xd() * dt, L.n, o.x);
        ctxs(what + " predict");
        paintStack();
        g_catch = true;
        if (setjmp(g_died)) { violation("a valid prediction ends the program", what); return copy(p); }
        const Error err = E::predict(p.impl->s(), o.t, u, Qx, Qu, make_out(o.impl->s()));
        g_catch = false;
        VH_EXPECT(err.ok(), "a valid prediction is refused", "%s", what.c_str());
        op = "predict";
        return o;
    }

    template <class M> void prepare(int m, uint64_t seed, typename M::M::Covariance& R, VecX& rd) const
    {
        Rnd r(seed);
        MatX H = r.m(m * M::BASE, L.dof);
        for (int s = 0; s < C::NS; ++s) if (!M::in(s)) H.middleCols(L.off[s], L.len[s]).setZero();
        User<C>::H() = H;
        User<C>::m() = m;
        User<C>::res() = VecX(r.m(m * M::BASE, 1)) * 0.3;
        rd.resize(m * M::BASE);
        for (int i = 0; i < R.size(); ++i) R(i) = 0.5 + std::abs(r.u());
        for (int i = 0; i < rd.size(); ++i) rd(i) = R(i % R.size());
    }
    template <class M> Node<C> update(const Node<C>& p, int m, uint64_t seed, std::string& op) const
    {
        typename M::M::Covariance R;
        VecX rd;
        prepare<M>(m, seed, R, rd);
        const MatX& H = User<C>::H();
        Node<C> o = copy(p);
        MatX PHt = p.P * H.transpose(), S = H * PHt;
        S.diagonal() += rd;
        const MatX Si = S.inverse();
        VecX& res = User<C>::res();
        const double mahal = res.dot(Si * res);
        if (mahal > 0.5 * M::GATE) res *= std::sqrt(0.5 * M::GATE / mahal);   // gating is K02's business
        if (!M::DIS)
        {
            const MatX K = PHt * Si;
            C::plusRef(p.x, K * res, L.n, o.x);
            o.P = p.P - K * PHt.transpose();
        }
        op = std::string("update ") + M::name();
        ctxs(what + " " + op + " of " + std::to_string(m));
        const auto z = M::z(m);
        paintStack();
        g_catch = true;
        if (setjmp(g_died)) { violation("a valid measurement ends the program: " + op, what); return copy(p); }
        const auto rr = E::update<typename M::M>(make_out(o.impl->s()), z, R);
        g_catch = false;
        VH_EXPECT(rr.ok(), "a valid measurement inside its gate is refused: " + op, "%s m %d", what.c_str(), m);
        if (rr.ok()) VH_EXPECT(rel(rr.res().head(res.size()), res) == 0, "the residual handed back is not the measurement's: " + op, "%s m %d", what.c_str(), m);
        return o;
    }
    template <class M> static std::vector<int> counts()
    {
        if (!M::VAR) return {1};
        std::vector<int> o;
        if (M::MAX <= 5) for (int i = 1; i <= M::MAX; ++i) o.push_back(i);
        else o = {1, 2, M::MAX};
        return o;
    }

    void go(Node<C>& p, int d, const std::string& seq, uint64_t h)
    {
        state(h);
        if (!d) { trace(); return; }
        int k = 0;
        auto one = [&](auto f, const std::string& label) {
            const uint64_t hh = mix(h, ++k);
            std::string op;
            Node<C> o = f(hh, op);
            transition();
            nontrivial(hh);
            const std::string s2 = seq + "; " + label;
            compare(o, op, s2);
            go(o, d - 1, s2, hh);
        };
        for (int64_t dt : {10000000ll, 200000000ll})
            one([&](uint64_t s, std::string& op) { return predict(p, dt, s, op); }, "predict " + std::to_string(dt));
        (([&] {
            for (int m : counts<Ms>())
                one([&](uint64_t s, std::string& op) { return update<Ms>(p, m, s, op); }, std::string(Ms::name()) + " " + std::to_string(m));
        }()), ...);
    }

    // ---- values: plus, minus, dense forms, finiteness --------------------------------------------------------
    typename C::Err err(const VecX& d) const
    {
        typename C::Err e;
        C::fillErr(e, L.n, [&](int s) { return VecX(d.segment(L.off[s], L.len[s])); });
        return e;
    }
    void values(uint64_t seed)
    {
        Rnd r(seed);
        Node<C> a = start(seed + 1);
        const VecX d = VecX(r.m(L.dof, 1)), d2 = VecX(r.m(L.dof, 1));
        ctxs(what + " values");
        SnapP buf = fresh();
        auto chk = [&](bool ok, const char* w, double e = 0) { transition(); VH_EXPECT(ok, w, "%s off by %g", what.c_str(), e); };
        State ref = a.x;
        C::plusRef(a.x, d, L.n, ref);
        auto cmp = [&](const State& s, const State& b, const char* w) {
            double e = 0;
            C::each2(s, b, L.n, [&](int, int, const auto& p, const auto& q) { e = worse(e, apart(p, q)); });
            int n[C::NV + 1] = {};
            C::getN(s, n);
            for (int i = 0; i < C::NV; ++i) if (n[i] != L.n[i]) e = 1e300;
            chk(e < TOL, w, e);
            chk(s.t.sec == b.t.sec && s.t.nsec == b.t.nsec, (std::string(w) + " (time)").c_str());
        };
        paintStack();
        const State s1 = a.impl->s().x + err(d);
        cmp(s1, ref, "state + error is not the reference");
        State s2 = a.impl->s().x;
        s2 += err(d);
        cmp(s2, ref, "state += error is not the reference");
        const State s3(s2);
        cmp(s3, ref, "a copied state is not the state");
        paintStack();
        const typename C::Err df = s1 - a.impl->s().x;
        double e = rel(C::denseErr(df, L.n), d);
        chk(e < 1e-8, "(state + error) - state is not the error", e);
        chk(s1.size() == L.dof, "size() of a state is not its degrees of freedom");
        chk(isFinite(s1), "a finite state is called not finite");
        chk(isFinite(df), "a finite error state is called not finite");
        const auto e1 = err(d), e2 = err(d2);
        chk(rel(C::denseErr(e1, L.n), d) == 0, "dense() of an error state");
        e = rel(C::denseErr(e1 + e2, L.n), d + d2); chk(e < 1e-14, "error + error", e);
        e = rel(C::denseErr(e1 - e2, L.n), d - d2); chk(e < 1e-14, "error - error", e);
        e = rel(C::denseErr(e1 * 1.75, L.n), d * 1.75); chk(e < 1e-14, "error * scalar", e);
        e = rel(C::denseErr(e1 / 1.75, L.n), d / 1.75); chk(e < 1e-14, "error / scalar", e);
        auto e3 = err(d); e3 += e2;
        e = rel(C::denseErr(e3, L.n), d + d2); chk(e < 1e-14, "error += error", e);
        e = rel(C::denseErr(C::Err::Zero(), L.n), VecX::Zero(L.dof)); chk(e == 0, "Zero() error state", e);
        e = rel(C::denseErr(C::Err::Constant(1.5), L.n), VecX::Constant(L.dof, 1.5)); chk(e == 0, "Constant() error state", e);
        VecX full = VecX(r.m(C::Err::DOF, 1));
        const auto ef = C::Err::fromDense(full);
        {
            // the dense form of the largest filter, of which this one takes the leading part of each variable state
            const auto st = C::states();
            VecX want(L.dof);
            int o = 0;
            for (int i = 0; i < C::NS; ++i) { want.segment(L.off[i], L.len[i]) = full.segment(o, L.len[i]); o += st[i].base * st[i].max; }
            chk(o == (int)C::Err::DOF, "DOF of the error state");
            e = rel(C::denseErr(ef, L.n), want); chk(e == 0, "fromDense() of an error state", e);
        }
        // matrices
        const MatX A = L.mask(r.m(L.dof, L.dof), false), B = L.mask(r.m(L.dof, L.idof), true);
        {
            User<C>::A() = A; User<C>::B() = B; User<C>::xd() = d;
            E::StateJac ja; E::InputJac jb;
            paint(ja); new (&ja) E::StateJac; paint(jb); new (&jb) E::InputJac;
            E::dynamics(a.impl->s().x, a.impl->s().u, &ja, &jb);
            e = rel(C::denseA(ja, L.n), A); chk(e == 0, "dense() of the state jacobian", e);
            e = rel(C::denseB(jb, L.n), B); chk(e == 0, "dense() of the input jacobian", e);
            chk(isFinite(ja), "a finite state jacobian is called not finite");
            chk(isFinite(jb), "a finite input jacobian is called not finite");
            for (int i = 0; i < L.dof; ++i) for (int j = 0; j < L.dof; ++j) if (A(i, j) != 0)
            {
                MatX& U = User<C>::A(); const double k = U(i, j); U(i, j) = BAD;
                E::StateJac jn; E::dynamics(a.impl->s().x, a.impl->s().u, &jn, nullptr); U(i, j) = k;
                chk(!isFinite(jn), "a state jacobian with a value that is not finite is called finite");
            }
            for (int i = 0; i < L.dof; ++i) for (int j = 0; j < L.idof; ++j) if (B(i, j) != 0)
            {
                MatX& U = User<C>::B(); const double k = U(i, j); U(i, j) = BAD;
                E::InputJac jn; E::dynamics(a.impl->s().x, a.impl->s().u, nullptr, &jn); U(i, j) = k;
                chk(!isFinite(jn), "an input jacobian with a value that is not finite is called finite");
            }
        }
        e = rel(C::denseCov(a.impl->s().cov, L.n), a.P); chk(e == 0 || e < 1e-15, "dense() of the covariance", e);
        chk(isFinite(a.impl->s().cov), "a finite covariance is called not finite");
        for (int i = 0; i < L.dof; ++i) for (int j = i; j < L.dof; ++j)
        {
            MatX P = a.P; P(i, j) = P(j, i) = BAD;
            setCov(buf->s().cov, P);
            chk(!isFinite(buf->s().cov), "a covariance with a value that is not finite is called finite");
        }
        for (int i = 0; i < L.dof; ++i)
        {
            VecX v = d; v(i) = BAD;
            chk(!isFinite(err(v)), "an error state with a value that is not finite is called finite");
        }
        {
            State sn = a.x;
            int bad = 0;
            C::each(sn, L.n, [&](int, int, auto& el) {
                using V = std::decay_t<decltype(el)>;
                const V keep = el;
                if constexpr (detail::is_eigen<V>::value)
                    for (int i = 0; i < el.size(); ++i) { el(i) = BAD; transition(); bad += isFinite(sn); el = keep; }
                else { auto v = el.log(); v.setConstant(NAN); el = V::exp(v); transition(); bad += isFinite(sn); el = keep; }
            });
            chk(!bad, "a state with a value that is not finite is called finite");
        }
        {
            E::ProcessCovariance Q;
            VecX qx(L.dof);
            const auto st = C::states();
            C::fillQx(Q, [&](int i) {
                VecX v = r.m(st[i].base, 1).cwiseAbs();
                for (int k = 0; k < L.len[i]; ++k) qx(L.off[i] + k) = v(k % st[i].base);
                return v;
            });
            chk(isFinite(Q), "a finite process covariance is called not finite");
            buf = fresh();
            paintStack();
            paint(buf->s().cov);
            new (&buf->s().cov) E::Covariance(Q);
            e = rel(C::denseCov(buf->s().cov, L.n), MatX(qx.asDiagonal())); chk(e == 0, "a covariance made from a process covariance", e);
            for (int i = 0; i < C::NS; ++i) for (int k = 0; k < st[i].base; ++k)
            {
                E::ProcessCovariance Qn;
                C::fillQx(Qn, [&](int s) { VecX v = VecX::Ones(st[s].base); if (s == i) v(k) = BAD; return v; });
                chk(!isFinite(Qn), "a process covariance with a value that is not finite is called finite");
            }
            E::InputCovariance U;
            VecX qu = VecX(r.m(L.idof, 1).cwiseAbs());
            C::fillQu(U, [&](int i) { return VecX(qu.segment(L.ioff[i], L.ilen[i])); });
            chk(rel(U.dense(), MatX(qu.asDiagonal())) == 0, "dense() of the input covariance");
            for (int k = 0; k < L.idof; ++k)
            {
                E::InputCovariance Un; VecX v = qu; v(k) = BAD;
                C::fillQu(Un, [&](int i) { return VecX(v.segment(L.ioff[i], L.ilen[i])); });
                chk(isFinite(U) && !isFinite(Un), "an input covariance with a value that is not finite is called finite");
                typename C::Input in; VecX w = qu; setU(in, w);
                chk(isFinite(in), "a finite input is called not finite");
                chk(rel(in.dense(), w) == 0 && rel(vecU(C::Input::fromDense(w)), w) == 0, "dense form of the input");
                w(k) = BAD; setU(in, w);
                chk(!isFinite(in), "an input with a value that is not finite is called finite");
            }
        }
        (([&] {
            for (int m : counts<Ms>())
            {
                typename Ms::M::Covariance R; VecX rd;
                prepare<Ms>(m, seed + m, R, rd);
                typename Ms::M::Jac j;
                paint(j); new (&j) typename Ms::M::Jac;
                E::h<typename Ms::M>(Ms::z(m), a.impl->s().x, &j);
                const double ee = rel(Ms::denseH(j, L.n, m), User<C>::H());
                chk(ee == 0, "dense() of a measurement jacobian", ee);
                chk(isFinite(j), "a finite measurement jacobian is called not finite");
                MatX& H = User<C>::H();
                for (int i = 0; i < H.rows(); ++i) for (int k = 0; k < H.cols(); ++k) if (H(i, k) != 0)
                {
                    const double keep = H(i, k); H(i, k) = BAD;
                    typename Ms::M::Jac jn; E::h<typename Ms::M>(Ms::z(m), a.impl->s().x, &jn); H(i, k) = keep;
                    chk(!isFinite(jn), "a measurement jacobian with a value that is not finite is called finite");
                }
            }
        }()), ...);
    }

    // ---- gating, refusals -------------------------------------------------------------------------------------
    bool same(Node<C>& a, const E::Snapshot& s) const
    {
        bool eq = true;
        C::each2(a.impl->s().x, s.x, L.n, [&](int, int, const auto& p, const auto& q) {
            using V = std::decay_t<decltype(p)>;
            if constexpr (detail::is_eigen<V>::value) eq &= (p.array() == q.array()).all();
            else eq &= apart(p, q) < 1e-12;
        });
        MatX x = C::denseCov(a.impl->s().cov, L.n), y = C::denseCov(s.cov, L.n);
        int n[C::NV + 1] = {}, k[C::NV + 1] = {};
        C::getN(a.impl->s().x, n); C::getN(s.x, k);
        for (int i = 0; i < C::NV; ++i) eq &= n[i] == k[i];
        return eq && (x.array() == y.array()).all() && s.x.t.sec == a.impl->s().x.t.sec && s.x.t.nsec == a.impl->s().x.t.nsec;
    }
    template <class M> void gateOne(int m, uint64_t seed)
    {
        Node<C> p = start(seed);
        typename M::M::Covariance R;
        VecX rd;
        prepare<M>(m, seed + 7, R, rd);
        const MatX H = User<C>::H();
        const VecX dir = User<C>::res();
        MatX S = H * p.P * H.transpose();
        S.diagonal() += rd;
        const double m0 = dir.dot(S.inverse() * dir);
        const bool open = M::GATE > 1e9;
        const double g = open ? 1e6 : M::GATE;
        const double fs[] = {0, 0.25, g < 1 ? 0.9 : 1 - 0.02 / g, g < 1 ? 1.1 : 1 + 0.02 / g, 4, 100};
        for (double f : fs)
        {
            User<C>::res() = dir * std::sqrt(f * g / m0);
            Node<C> o = copy(p);
            const auto z = M::z(m);
            ctxs(what + " gate " + M::name() + " " + std::to_string(f));
            paintStack();
            g_catch = true;
            if (setjmp(g_died)) { violation(std::string("a measurement ends the program: ") + M::name(), what); continue; }
            const auto rr = E::update<typename M::M>(make_out(o.impl->s()), z, R);
            g_catch = false;
            transition();
            state(mix(mix(seed, m), uint64_t(f * 1e6)));
            nontrivial(mix(seed, uint64_t(f * 1e6)));
            trace();
            const bool want = open || f <= 1;
            outcome(hstr(want ? "accepted" : "gated"));
            VH_EXPECT(rr.ok() == want, want ? std::string("a measurement inside its gate is refused: ") + M::name() : std::string("a measurement outside its gate is accepted: ") + M::name(),
                      "%s m %d at %g of the threshold %g", what.c_str(), m, f, M::GATE);
            const bool eq = same(p, o.impl->s());
            if (!want || M::DIS) VH_EXPECT(eq, want ? std::string("a disabled measurement changes the filter: ") + M::name() : std::string("a gated measurement changes the filter: ") + M::name(), "%s m %d at %g", what.c_str(), m, f);
            else if (f > 0 && H.cwiseAbs().sum() > 0) VH_EXPECT(!eq, std::string("an accepted measurement leaves the filter as it was: ") + M::name(), "%s m %d at %g", what.c_str(), m, f);
        }
        if (M::VAR)
        {
            Node<C> o = copy(p);
            prepare<M>(1, seed + 9, R, rd);
            User<C>::H().resize(0, L.dof); User<C>::res().resize(0); User<C>::m() = 0;
            const auto z = M::z(0);
            paintStack();
            g_catch = true;
            if (setjmp(g_died)) violation(std::string("an empty measurement ends the program: ") + M::name(), what);
            else
            {
                const auto rr = E::update<typename M::M>(make_out(o.impl->s()), z, R);
                g_catch = false;
                transition();
                VH_EXPECT(!rr.ok() && same(p, o.impl->s()), std::string("an empty measurement is applied: ") + M::name(), "%s", what.c_str());
            }
        }
        // a NaN anywhere among what goes in is refused, never filtered
        prepare<M>(m, seed + 11, R, rd);
        User<C>::res() *= 1e-3;
        auto refused = [&](const char* w, auto poke) {
            Node<C> o = copy(p);
            auto z = M::z(m);
            auto Rn = R;
            const MatX Hk = User<C>::H();
            const VecX rk = User<C>::res();
            bool died = false;
            poke(o, Rn);
            g_catch = true;
            if (setjmp(g_died)) died = true;
            else { E::update<typename M::M>(make_out(o.impl->s()), z, Rn); g_catch = false; }
            User<C>::H() = Hk; User<C>::res() = rk;
            transition();
            outcome(hstr("refused"));
            if (!died) violation(std::string(w) + " goes through an update: " + M::name(), what);
        };
        for (double bad : {(double)NAN, (double)INFINITY, (double)-INFINITY})
        {
        BAD = bad;
        for (int i = 0; i < R.size(); ++i) refused("a measurement covariance with a value that is not finite", [&](Node<C>&, auto& Rn) { Rn(i) = BAD; });
        for (int i = 0; i < m * M::BASE; ++i) refused("a residual with a value that is not finite", [&](Node<C>&, auto&) { User<C>::res()(i) = BAD; });
        for (int s = 0; s < C::NS; ++s) if (M::in(s) && L.len[s])
            refused("a jacobian with a value that is not finite", [&](Node<C>&, auto&) { User<C>::H()(m * M::BASE - 1, L.off[s] + L.len[s] - 1) = BAD; });
        }
    }
    void gates(uint64_t seed)
    {
        (([&] { for (int m : counts<Ms>()) gateOne<Ms>(m, mix(seed, m * 16 + Ms::ID)); }()), ...);
        // predictions that must be refused
        Node<C> p = start(seed);
        auto refused = [&](const char* w, auto poke) {
            Node<C> o = copy(p);
            SnapP out = fresh();
            Rnd r(seed + 3);
            User<C>::A() = L.mask(r.m(L.dof, L.dof), false);
            User<C>::B() = L.mask(r.m(L.dof, L.idof), true);
            User<C>::xd() = VecX(r.m(L.dof, 1));
            E::ProcessCovariance Qx; E::InputCovariance Qu;
            const auto st = C::states();
            VecX qx = VecX::Ones(1000), qu = VecX::Ones(L.idof), u = VecX::Ones(L.idof);
            UTCTime t = p.t; t.sec += 1;
            poke(o, t, qx, qu, u);
            int k = 0;
            C::fillQx(Qx, [&](int i) { VecX v = qx.segment(k, st[i].base); k += st[i].base; return v; });
            C::fillQu(Qu, [&](int i) { return VecX(qu.segment(L.ioff[i], L.ilen[i])); });
            typename C::Input in; setU(in, u);
            bool died = false;
            g_catch = true;
            if (setjmp(g_died)) died = true;
            else { E::predict(o.impl->s(), t, in, Qx, Qu, make_out(out->s())); g_catch = false; }
            transition();
            state(mix(seed, hstr(w)));
            outcome(hstr(died ? "refused" : "went through"));
            if (std::string(w) == "nothing wrong") { if (died) violation("a prediction with nothing wrong ends the program", what); }
            else if (!died) violation(std::string(w) + " goes through a prediction", what);
        };
        refused("nothing wrong", [](auto&, auto&, auto&, auto&, auto&) {});
        refused("a time before the state's", [](auto&, auto& t, auto&, auto&, auto&) { t.sec -= 2; });
        refused("the state's own time", [](auto&, auto& t, auto&, auto&, auto&) { t.sec -= 1; });
        refused("a state without a time", [](auto& o, auto&, auto&, auto&, auto&) { o.impl->s().x.t = INVALID_TIME; });
        int q = 0;
        for (const auto& s : C::states()) q += s.base;
        for (double bad : {(double)NAN, (double)INFINITY, (double)-INFINITY})
        {
        BAD = bad;
        for (int i = 0; i < q; ++i) refused("a process covariance with a value that is not finite", [&](auto&, auto&, auto& qx, auto&, auto&) { qx(i) = BAD; });
        for (int i = 0; i < L.idof; ++i)
        {
            refused("an input covariance with a value that is not finite", [&](auto&, auto&, auto&, auto& qu, auto&) { qu(i) = BAD; });
            refused("an input with a value that is not finite", [&](auto&, auto&, auto&, auto&, auto& u) { u(i) = BAD; });
        }
        for (int i = 0; i < L.dof; ++i)
        {
            refused("a covariance with a value that is not finite", [&](auto& o, auto&, auto&, auto&, auto&) { MatX P = o.P; P(i, i) = BAD; setCov(o.impl->s().cov, P); });
            refused("a derivative with a value that is not finite", [&](auto&, auto&, auto&, auto&, auto&) { User<C>::xd()(i) = BAD; });
            for (int j = 0; j < L.dof; ++j) if (User<C>::A()(i, j) != 0)
                { refused("a state jacobian with a value that is not finite", [&](auto&, auto&, auto&, auto&, auto&) { User<C>::A()(i, j) = BAD; }); break; }
            for (int j = 0; j < L.idof; ++j) if (User<C>::B()(i, j) != 0)
                { refused("an input jacobian with a value that is not finite", [&](auto&, auto&, auto&, auto&, auto&) { User<C>::B()(i, j) = BAD; }); break; }
        }
        }
    }
};

template <class C, class... Ms> int run(const std::string& name)
{
    init();
    const char* md = getenv("K_MODE");
    const bool gate = md && std::string(md) == "gate";
    const int depth = atoi(getenv("K_DEPTH") ? getenv("K_DEPTH") : "2");
    const int cap = atoi(getenv("K_CAP") ? getenv("K_CAP") : "1000");
    if (!freopen("/dev/null", "w", stdout)) return 3;
    std::vector<std::vector<int>> opts(C::NV);
    for (const auto& s : C::states()) if (s.var >= 0)
    {
        std::set<int> o;
        if (s.max <= 5) for (int i = 0; i <= s.max; ++i) o.insert(i);
        else o = {0, 1, 2, s.max - 1, s.max};
        std::vector<int> v(o.begin(), o.end());
        while ((int)v.size() > cap) v.erase(v.begin() + 1 + (v.size() - 2) / 2);
        opts[s.var] = v;
    }
    std::vector<size_t> ix(C::NV, 0);
    uint64_t k = 0;
    while (true)
    {
        std::vector<int> n;
        for (int i = 0; i < C::NV; ++i) n.push_back(opts[i][ix[i]]);
        Explore<C, Ms...> x(n, name, depth);
        for (int sd = 0; sd < 2; ++sd) if (mine(k++))
        {
            const uint64_t h = mix(hstr(name), k);
            if (gate) x.gates(h);
            else
            {
                if (!sd) for (double bad : {(double)NAN, (double)INFINITY, (double)-INFINITY}) { BAD = bad; x.values(h); }
                Node<C> p = x.start(h);
                x.compare(p, "setting up", "");
                x.go(p, depth, "", h);
            }
        }
        int i = 0;
        while (i < C::NV && ++ix[i] == opts[i].size()) ix[i++] = 0;
        if (i == C::NV) break;
    }
    return finish();
}
