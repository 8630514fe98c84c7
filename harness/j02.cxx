// J02: the RTK filter's process model is the motion of a rigid body with an ideal IMU, and its Jacobians are the derivatives.
#include "vh.h"
#include "core/ekf/rtk_ekf.h"
#include "dual.h"
#include "rots.h"
using namespace mc;
using namespace mc::ekf;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
static const ld G = 9.80665L;

// members of the error state, in the order of this enumeration
enum { POSE, VEL, BA, BG, GPS, GAL, GLO, SD, LEV, EARTH, NM };
static const int LEN[NM] = {6, 3, 3, 3, 2, 2, 2, 0, 3, 6};
static int g_off[NM];    // where the dense form has them, for g_n single differences
static int g_n, g_dof;
static void layout(int n)
{
    g_n = n;
    auto where = [&](auto set) { ErrorState e = ErrorState::Zero(); set(e); auto d = e.dense(n); for (int i = 0; i < d.size(); ++i) if (d(i) != 0) return i; return -1; };
    g_off[POSE] = where([](ErrorState& e) { e.pose(0) = 1; });
    g_off[VEL] = where([](ErrorState& e) { e.vel(0) = 1; });
    g_off[BA] = where([](ErrorState& e) { e.acc_bias(0) = 1; });
    g_off[BG] = where([](ErrorState& e) { e.gyro_bias(0) = 1; });
    g_off[GPS] = where([](ErrorState& e) { e.gps_clk(0) = 1; });
    g_off[GAL] = where([](ErrorState& e) { e.gal_clk(0) = 1; });
    g_off[GLO] = where([](ErrorState& e) { e.glo_clk(0) = 1; });
    g_off[SD] = n ? where([&](ErrorState& e) { e.sd(0)(0) = 1; }) : -1;
    g_off[LEV] = where([](ErrorState& e) { e.p_b2g(0) = 1; });
    g_off[EARTH] = where([](ErrorState& e) { e.T_I2e(0) = 1; });
    g_dof = 30 + n;
}

template <class S> struct Sys { Pose<S> b; V3<S> v, ba, bg, f, w; S clk[3][2]; };
template <class S> struct Rate { V3<S> w, v, vd; S clk[3]; };
template <class S> static Sys<S> refOf(const State& x, const Input& u)
{
    Sys<S> s;
    s.b = refPose<S>(x.pose); s.v = rv3<S>(x.vel); s.ba = rv3<S>(x.acc_bias); s.bg = rv3<S>(x.gyro_bias); s.f = rv3<S>(u.accel); s.w = rv3<S>(u.gyro);
    for (int i = 0; i < 2; ++i) { s.clk[0][i] = S((ld)x.gps_clk(i)); s.clk[1][i] = S((ld)x.gal_clk(i)); s.clk[2][i] = S((ld)x.glo_clk(i)); }
    return s;
}
// body turning at w with velocity v in its own frame; accelerometer senses f; gravity along +z of the parent
template <class S> static Rate<S> flow(const Sys<S>& s)
{
    Rate<S> r;
    r.w = s.w - s.bg; r.v = s.v;
    // velocity in the parent frame is R v, so R (vd + w x v) = R f + g
    r.vd = (s.f - s.ba) + s.b.R.T() * V3<S>(S(0), S(0), S(G)) - r.w.cross(s.v);
    for (int i = 0; i < 3; ++i) r.clk[i] = s.clk[i][1];
    return r;
}
template <class D> static void put(D& m, int member, int i, ld v) { m[g_off[member] + i] = v; }
static std::vector<ld> column(const Rate<Du>& r)
{
    std::vector<ld> c(g_dof, 0);
    for (int i = 0; i < 3; ++i)
    {
        c[g_off[POSE] + i] = r.w[i].d; c[g_off[POSE] + 3 + i] = r.v[i].d; c[g_off[VEL] + i] = r.vd[i].d;
        c[g_off[GPS + i]] = r.clk[i].d;
    }
    return c;
}
// rate of the pose error on top of that: with estimate X, truth X E, both moving by twist (w, v): E' = E tw - tw E
static void turning(const V3<ld>& w, const V3<ld>& v, int k, std::vector<ld>& c)
{
    ld t[4][4] = {{0}}, e[4][4] = {{0}};
    auto hat = [](ld m[4][4], const V3<ld>& a, const V3<ld>& b) {
        const auto s = skw(a);
        for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m[i][j] = s.m[i][j]; m[i][3] = b[i]; }
    };
    V3<ld> a, b;
    (k < 3 ? a[k] : b[k - 3]) = 1;
    hat(t, w, v); hat(e, a, b);
    ld m[4][4];
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m[i][j] = 0; for (int q = 0; q < 4; ++q) m[i][j] += e[i][q] * t[q][j] - t[i][q] * e[q][j]; }
    const ld r[6] = {m[2][1], m[0][2], m[1][0], m[0][3], m[1][3], m[2][3]};
    for (int i = 0; i < 6; ++i) c[g_off[POSE] + i] += r[i];
}

static void at(const State& x, const Input& u, const std::string& where, bool jac)
{
    ctxs(where);
    const auto f = flow(refOf<ld>(x, u));
    static StateJac A; static InputJac B;
    memset(reinterpret_cast<char*>(&A), 0xFF, sizeof A); memset(reinterpret_cast<char*>(&B), 0xFF, sizeof B);
    const ErrorState d = dynamics(x, u, jac ? &A : nullptr, jac ? &B : nullptr);
    eval(); trace();
    std::vector<ld> want(g_dof, 0);
    for (int i = 0; i < 3; ++i) { put(want, POSE, i, f.w[i]); put(want, POSE, 3 + i, f.v[i]); put(want, VEL, i, f.vd[i]); put(want, GPS + i, 0, f.clk[i]); }
    const auto dd = d.dense(g_n);
    for (int i = 0; i < g_dof; ++i)
        VH_EXPECT(fabsl(dd(i) - want[i]) <= 1e-13L * (30 + fabsl(want[i])) , "rate", "%s: rate %d is %.9g, a rigid body's is %.9Lg", where.c_str(), i, dd(i), want[i]);
    outcome(mix(std::llround(dd(g_off[VEL]) * 1e4), std::llround(dd(g_off[VEL] + 2) * 1e4)));
    if (!jac) return;
    const Eigen::MatrixXd a = A.dense(g_n), b = B.dense(g_n);
    const auto s = refOf<Du>(x, u);
    const Du e(0, 1);
    for (int m = 0; m < NM; ++m)
        for (int k = 0; k < (m == SD ? g_n : LEN[m]); ++k)
        {
            Sys<Du> p = s;
            if (m == POSE) p.b = s.b.moved(k, e);
            if (m == VEL) p.v[k] = p.v[k] + e;
            if (m == BA) p.ba[k] = p.ba[k] + e;
            if (m == BG) p.bg[k] = p.bg[k] + e;
            if (m >= GPS && m <= GLO) p.clk[m - GPS][k] = p.clk[m - GPS][k] + e;
            auto c = column(flow(p));
            if (m == POSE) turning(f.w, f.v, k, c);
            const int col = g_off[m] + k;
            ErrorState dx = ErrorState::Zero();
            if (m == POSE) dx.pose(k) = 1;
            if (m == VEL) dx.vel(k) = 1;
            if (m == BA) dx.acc_bias(k) = 1;
            if (m == BG) dx.gyro_bias(k) = 1;
            if (m == GPS) dx.gps_clk(k) = 1;
            if (m == GAL) dx.gal_clk(k) = 1;
            if (m == GLO) dx.glo_clk(k) = 1;
            if (m == SD) dx.sd(k)(0) = 1;
            if (m == LEV) dx.p_b2g(k) = 1;
            if (m == EARTH) dx.T_I2e(k) = 1;
            const auto es = errorStateDynamics(dx, x, u, Input::Zero()).dense(g_n);
            for (int i = 0; i < g_dof; ++i)
            {
                VH_EXPECT(fabsl(a(i, col) - c[i]) <= 1e-13L * (30 + fabsl(c[i])), "state-jacobian", "%s: row %d column %d is %.9g, derivative %.9Lg", where.c_str(), i, col, a(i, col), c[i]);
                VH_EXPECT(fabsl(es(i) - c[i]) <= 1e-13L * (30 + fabsl(c[i])), "error-state-dynamics", "%s: row %d for error %d is %.9g, derivative %.9Lg", where.c_str(), i, col, es(i), c[i]);
            }
            transition(2 * g_dof);
        }
    for (int k = 0; k < 6; ++k)
    {
        Sys<Du> p = s;
        if (k < 3) p.f[k] = p.f[k] + e; else p.w[k - 3] = p.w[k - 3] + e;
        const auto c = column(flow(p));
        Input eta = Input::Zero(), one = Input::Zero();
        if (k < 3) eta.accel(k) = 1; else eta.gyro(k - 3) = 1;
        const auto es = errorStateDynamics(ErrorState::Zero(), x, u, eta).dense(g_n);
        const auto ud = eta.dense();
        int col = 0;
        while (ud(col) == 0) ++col;
        for (int i = 0; i < g_dof; ++i)
        {
            VH_EXPECT(fabsl(b(i, col) - c[i]) <= 1e-13L * (30 + fabsl(c[i])), "input-jacobian", "%s: row %d column %d is %.9g, derivative %.9Lg", where.c_str(), i, col, b(i, col), c[i]);
            VH_EXPECT(fabsl(es(i) - c[i]) <= 1e-13L * (30 + fabsl(c[i])), "error-state-dynamics", "%s: row %d for input error %d is %.9g, derivative %.9Lg", where.c_str(), i, k, es(i), c[i]);
        }
        transition(2 * g_dof);
    }
}

// ---- whole motions: the generated prediction driven by an ideal IMU
static M3<ld> expm(const V3<ld>& w)
{
    const ld th = w.norm();
    auto o = M3<ld>::I();
    if (th == 0) return o;
    const auto k = skw(w * (1 / th)), kk = k * k;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.m[i][j] += sinl(th) * k.m[i][j] + (1 - cosl(th)) * kk.m[i][j];
    return o;
}
struct Motion { M3<ld> R0; V3<ld> w, v0, acc; };   // constant body rate, constant acceleration in the parent frame
static ld motion(const Q& q, const Motion& mo, const Vec3& ba, const Vec3& bg, double dt, int steps, const std::string& where)
{
    ctxs(where);
    static Snapshot a, b;
    static ProcessCovariance Qx; static InputCovariance Qu;
    State x;
    x.num_sd = 1; x.sd[0] = Vec1::Constant(3.5);
    x.t = UTCTime(1600000000, 0);
    const V3<ld> p0(100, -20, 3);
    x.pose = DQ(q, Vec3(100, -20, 3));
    const auto vb = mo.R0.T() * mo.v0;
    x.vel = Vec3(vb[0], vb[1], vb[2]); x.acc_bias = ba; x.gyro_bias = bg;
    x.gps_clk << 1000, 12; x.gal_clk << -500, -3; x.glo_clk << 77, 0.5; x.p_b2g = Vec3(0.1, 0.2, 0.3); x.T_I2e = DQ(q, Vec3(1, 2, 3));
    a.x = x; a.cov = Covariance::Identity(); a.u = Input::Zero();
    Qx.setZero(); Qu.setZero();
    const Snapshot *cur = &a; Snapshot* nxt = &b;
    for (int i = 0; i < steps; ++i)
    {
        const ld t = i * (ld)dt;
        const auto R = mo.R0 * expm(mo.w * t);
        const auto f = R.T() * (mo.acc - V3<ld>(0, 0, G));
        Input u;
        for (int k = 0; k < 3; ++k) { u.accel(k) = f[k] + ba(k); u.gyro(k) = mo.w[k] + bg(k); }
        const Error err = predict(*cur, cur->x.t + dt, u, Qx, Qu, Out<Snapshot>(*nxt));
        transition();
        if (!err.ok()) { violation("predict-refused", where); return 0; }
        Snapshot* other = const_cast<Snapshot*>(cur);
        cur = nxt; nxt = other;
    }
    eval(); trace();
    const ld T = steps * (ld)dt;
    const auto R = mo.R0 * expm(mo.w * T);
    const auto p = p0 + mo.v0 * T + mo.acc * (T * T / 2);
    const auto v = R.T() * (mo.v0 + mo.acc * T);
    const auto got = refPose<ld>(cur->x.pose);
    ld e = 0;
    for (int i = 0; i < 3; ++i)
    {
        e = worse(e, fabsl(got.t[i] - p[i])); e = worse(e, fabsl(cur->x.vel(i) - v[i]));
        for (int j = 0; j < 3; ++j) VH_EXPECT(fabsl(got.R.m[i][j] - R.m[i][j]) < 1e-9L, "motion-attitude", "%s: %d,%d off by %.3Lg", where.c_str(), i, j, got.R.m[i][j] - R.m[i][j]);
    }
    const bool rest = cur->x.acc_bias == ba && cur->x.gyro_bias == bg && cur->x.p_b2g == x.p_b2g && cur->x.sd[0](0) == 3.5 && cur->x.num_sd == 1 && cur->x.gps_clk(1) == 12;
    VH_EXPECT(rest, "motion-constants", "%s: a quantity that is constant by itself moved", where.c_str());
    VH_EXPECT(fabsl(cur->x.gps_clk(0) - (1000 + 12 * T)) < 1e-6L && fabsl(cur->x.gal_clk(0) - (-500 - 3 * T)) < 1e-6L && fabsl(cur->x.glo_clk(0) - (77 + 0.5L * T)) < 1e-6L, "motion-clock", "%s", where.c_str());
    return e == e ? e : 1e30L;
}

int main()
{
    vh::init();
    const auto R = rots(thorough() ? 40 : 8);
    const Vec3 Z = Vec3::Zero();
    std::vector<Vec3> vel = {Z, Vec3(9, 0, 0), Vec3(0, 0, -4), Vec3(12.5, -3.25, 0.5)};
    std::vector<Vec3> gyr = {Z, Vec3(0, 0, 0.8), Vec3(1.5, 0, 0), Vec3(0.3, -0.2, 0.9)};
    std::vector<Vec3> acc = {Z, Vec3(0, 0, -9.80665), Vec3(2, -3, 8)};
    std::vector<Vec3> bia = {Z, Vec3(0.02, -0.3, 0.11)};
    uint64_t idx = 0;
    for (int n : {0, 1, 30})
    {
        layout(n);
        for (size_t r = 0; r < R.size(); ++r)
            for (int v = 0; v < 4; ++v) for (int g = 0; g < 4; ++g) for (int c = 0; c < 3; ++c) for (int b = 0; b < 4; ++b)
            {
                if (!mine(idx++)) continue;
                State x;
                x.num_sd = n;
                for (int i = 0; i < n; ++i) x.sd[i] = Vec1::Constant(i * 5.5);
                x.pose = DQ(R[r], Vec3(10, -20, 30)); x.T_I2e = DQ(R[(r + 5) % R.size()], Vec3(5, 6, 7)); x.p_b2g = Vec3(0.1, 0.2, 0.3);
                x.vel = vel[v]; x.acc_bias = bia[b & 1]; x.gyro_bias = bia[b >> 1] * -0.5;
                x.gps_clk << 1000, 12.5 + v; x.gal_clk << -500, -3 - g; x.glo_clk << 77, 0.25 * c;
                Input u; u.accel = acc[c]; u.gyro = gyr[g];
                at(x, u, str("rates: %d single differences, attitude %zu, velocity %d, rate %d, acceleration %d, biases %d", n, r, v, g, c, b), n < 2 || thorough() || (r + v + g + c + b) % 8 == 0);
                state(mix(mix(n, r), ((v * 4 + g) * 4 + c) * 4 + b));
                if (v && g && b) nontrivial(mix(mix(n, r), ((v * 4 + g) * 4 + c) * 4 + b));
            }
    }
    std::vector<V3<ld>> A = {{0, 0, 0}, {0, 0, 9.80665L}, {1, 0, 0}, {-2, 3, 1}}, V = {{0, 0, 0}, {7, -3, 2}};
    for (size_t r = 0; r < R.size(); ++r)
        for (int g = 0; g < 4; ++g) for (int c = 0; c < 4; ++c) for (int v = 0; v < 2; ++v) for (int b = 0; b < 2; ++b)
        {
            if (!mine(idx++)) continue;
            Motion mo;
            mo.R0 = rotm<ld>(R[r].arr_.data()); mo.w = rv3<ld>(gyr[g]); mo.v0 = V[v]; mo.acc = A[c];
            const std::string w = str("motion: attitude %zu, rate %d, acceleration %d, velocity %d, biases %d", r, g, c, v, b);
            const double dt = 1.0 / 128;
            const ld e1 = motion(R[r], mo, bia[b], bia[b] * 0.3, dt, 128, w), e2 = motion(R[r], mo, bia[b], bia[b] * 0.3, dt / 2, 256, w + " at half the step");
            const ld amax = mo.acc.norm(), wv = mo.w.norm();
            // first-order integration: the error after a second is a small multiple of the step
            const ld bound = 3 * dt * (amax + (wv + wv * wv) * (mo.v0.norm() + amax + G) ) + 1e-7L;
            VH_EXPECT(e1 <= bound, "motion", "%s: off by %.6Lg after 1 s, more than %.6Lg", w.c_str(), e1, bound);
            VH_EXPECT(e2 <= bound / 2 && e2 <= 0.75L * e1 + 1e-7L, "motion-converges", "%s: off by %.6Lg with step %g and by %.6Lg with half of it", w.c_str(), e1, dt, e2);
            state(mix(mix(99, r), ((g * 4 + c) * 2 + v) * 2 + b));
            nontrivial(mix(mix(99, r), ((g * 4 + c) * 2 + v) * 2 + b));
        }
    sample("rates and Jacobians over attitude x velocity x rate x acceleration x biases; ideal-IMU motions of 1 s at two step sizes");
    return vh::finish();
}
