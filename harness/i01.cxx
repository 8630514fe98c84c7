// I01: preintegrated IMU data reproduces the motion, splits at any time without changing it, and the factor built on it
// agrees with integrating again with another bias.
#include "vh.h"
#include <csetjmp>
#include <memory>
#include <set>
#include "models/imu_model.h"
#include "dual.h"
#include "rots.h"
using namespace mc;
using namespace mc::models;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
static const ld G = 9.80665L;

static bool g_catch = false;
static jmp_buf g_died;
extern "C" void exit(int rc)   // mc::check ends the program through exit
{
    if (g_catch) { g_catch = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}
template <class F> static bool dies(const F& f)
{
    g_catch = true;
    if (setjmp(g_died)) return true;
    f();
    g_catch = false;
    return false;
}

static M3<ld> expm(const V3<ld>& w)
{
    const ld th = w.norm();
    auto o = M3<ld>::I();
    if (th == 0) return o;
    const auto k = skw(w * (1 / th)), kk = k * k;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.m[i][j] += sinl(th) * k.m[i][j] + (1 - cosl(th)) * kk.m[i][j];
    return o;
}
struct Motion { M3<ld> R0; V3<ld> w, v0, acc; };
static const UTCTime T0(1600000000, 250000000);
static UTCTime at_ns(int64_t ns) { UTCTime t = T0; t.nsec += ns; while (t.nsec >= 1000000000) { t.nsec -= 1000000000; t.sec += 1; } return t; }
static meas::ImuSample ideal(const Motion& mo, int64_t ns, const Vec6& bias)
{
    const ld t = ns * 1e-9L;
    const auto f = (mo.R0 * expm(mo.w * t)).T() * (mo.acc - V3<ld>(0, 0, G));
    meas::ImuSample s;
    s.t = at_ns(ns);
    for (int k = 0; k < 3; ++k) { s.accel(k) = f[k] + bias(k); s.gyro(k) = mo.w[k] + bias(3 + k); }
    return s;
}
static double poseErr(const DQ& a, const DQ& b)
{
    double e = worse((a.translation() - b.translation()).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (a.rotation().R().matrix() - b.rotation().R().matrix()).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    return e == e ? e : 1e300;
}
static double vecErr(const Vec3& a, const Vec3& b) { double e = (a - b).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(); return e == e ? e : 1e300; }

static const Vec6 NOISE = (Vec6() << 0.01, 0.02, 0.03, 1e-4, 2e-4, 3e-4).finished();

static ld follow(const Motion& mo, const Q& q, const Vec6& b0, int64_t step, int n, const std::string& where)
{
    ctxs(where);
    ImuModel f(ideal(mo, 0, b0), b0, NOISE);
    for (int i = 1; i <= n; ++i) { f.integrate(ideal(mo, i * step, b0)); transition(); }
    eval(); trace();
    VH_EXPECT(f.t0() == at_ns(0) && f.tf() == at_ns(n * step) && f.numUpdates() == n && std::fabs(f.delta_t() - n * step * 1e-9) < 1e-9, "interval", "%s", where.c_str());
    const auto vb = mo.R0.T() * mo.v0;
    DQ end; Vec3 vend;
    const Vec3 p0(100, -20, 3);
    f.computeEndState(DQ(q, p0), Vec3(vb[0], vb[1], vb[2]), Out<DQ>(end), Out<Vec3>(vend));
    const ld T = n * step * 1e-9L;
    const auto R = mo.R0 * expm(mo.w * T);
    const auto p = rv3<ld>(p0) + mo.v0 * T + mo.acc * (T * T / 2);
    const auto v = R.T() * (mo.v0 + mo.acc * T);
    const auto got = refPose<ld>(end);
    ld e = 0;
    for (int i = 0; i < 3; ++i)
    {
        e = worse(e, worse(fabsl(got.t[i] - p[i]), fabsl(vend(i) - v[i])));
        for (int j = 0; j < 3; ++j) VH_EXPECT(fabsl(got.R.m[i][j] - R.m[i][j]) < 1e-9L, "motion-attitude", "%s: %d,%d off by %.3Lg", where.c_str(), i, j, got.R.m[i][j] - R.m[i][j]);
    }
    outcome(mix(std::llround(end.translation()(0) * 1e4), std::llround(vend(1) * 1e4)));
    return e == e ? e : 1e30L;
}

// factor: residuals and Jacobians
static void factor(const Motion& mo, const Q& q, const Vec6& b0, const std::string& where)
{
    ctxs(where);
    const int64_t step = 4000000; const int n = 40;
    auto make = [&](const Vec6& bias) { ImuModel f(ideal(mo, 0, b0), bias, NOISE); for (int i = 1; i <= n; ++i) f.integrate(ideal(mo, i * step, b0)); return f; };
    const ImuModel f = make(b0);
    const auto vb = mo.R0.T() * mo.v0;
    const DQ start(q, Vec3(100, -20, 3));
    const Vec3 v0(vb[0], vb[1], vb[2]);
    DQ end; Vec3 v1;
    f.computeEndState(start, v0, Out<DQ>(end), Out<Vec3>(v1));
    auto res = [&](const DQ& s, const DQ& e, const Vec3& a, const Vec3& b, const Vec6& bias) {
        const double* p[] = {s.data(), e.data(), a.data(), b.data(), bias.data()};
        Vec9 r;
        f.Evaluate(p, r.data(), nullptr);
        return r;
    };
    eval(); trace();
    const Vec9 r0 = res(start, end, v0, v1, b0);
    VH_EXPECT(r0.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-9, "residual-at-own-end", "%s: residual %g at the end state it predicts, with the bias it was made with", where.c_str(), r0.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    // another bias: as if integrated with it, to first order
    for (int k = 0; k < 6; ++k)
    {
        double e[2];
        for (int h = 0; h < 2; ++h)
        {
            Vec6 b1 = b0; b1(k) += (h ? 0.5e-2 : 1e-2);
            const ImuModel g = make(b1);
            DQ e1; Vec3 w1;
            g.computeEndState(start, v0, Out<DQ>(e1), Out<Vec3>(w1));
            e[h] = res(start, e1, v0, w1, b1).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
            transition();
        }
        // what is left is of second order in the change, plus the first-order integration of the bias Jacobian
        VH_EXPECT(e[0] < 2e-4 && e[1] < 0.6 * e[0] + 1e-9, "bias-correction", "%s: bias %d moved by 0.01: residual %g at the end state integrated with it, by half of it %g", where.c_str(), k, e[0], e[1]);
    }
    // Jacobians, away from zero residual
    const DQ s2 = start * DQ::exp((Vec6() << 0.1, -0.2, 0.15, 0.5, 0.3, -0.4).finished());
    const DQ e2 = end * DQ::exp((Vec6() << -0.15, 0.1, 0.2, 0.2, -0.6, 0.3).finished());
    const Vec3 a2 = v0 + Vec3(0.3, 0.2, -0.1), c2 = v1 + Vec3(-0.2, 0.4, 0.3);
    Vec6 b2 = b0; b2 += (Vec6() << 0.02, -0.01, 0.03, 0.01, -0.02, 0.015).finished();
    Eigen::Matrix<double, 9, 8, Eigen::RowMajor> J0, J1; Eigen::Matrix<double, 9, 3, Eigen::RowMajor> J2, J3; Eigen::Matrix<double, 9, 6, Eigen::RowMajor> J4;
    double* J[] = {J0.data(), J1.data(), J2.data(), J3.data(), J4.data()};
    const double* p[] = {s2.data(), e2.data(), a2.data(), c2.data(), b2.data()};
    Vec9 r;
    f.Evaluate(p, r.data(), J);
    const double h = 1e-5;
    for (int k = 0; k < 27; ++k)
    {
        Vec6 d = Vec6::Zero(); if (k < 12) d(k % 6) = h;
        Vec3 d3 = Vec3::Zero(); if (k >= 12 && k < 18) d3(k % 3) = h;
        Vec6 db = Vec6::Zero(); if (k >= 18 && k < 24) db(k - 18) = h;
        if (k >= 24) continue;
        Vec9 fd, an;
        if (k < 12)
        {
            const DQ& x = k < 6 ? s2 : e2;
            const DQ xp = x * DQ::exp(d), xm = x * DQ::exp(-d);
            fd = (k < 6 ? res(xp, e2, a2, c2, b2) - res(xm, e2, a2, c2, b2) : res(s2, xp, a2, c2, b2) - res(s2, xm, a2, c2, b2)) / (2 * h);
            an = (k < 6 ? J0 : J1) * (Vec8(xp.arr_) - Vec8(xm.arr_)) / (2 * h);
        }
        else if (k < 15) { fd = (res(s2, e2, a2 + d3, c2, b2) - res(s2, e2, a2 - d3, c2, b2)) / (2 * h); an = J2.col(k - 12); }
        else if (k < 18) { fd = (res(s2, e2, a2, c2 + d3, b2) - res(s2, e2, a2, c2 - d3, b2)) / (2 * h); an = J3.col(k - 15); }
        else { fd = (res(s2, e2, a2, c2, b2 + db) - res(s2, e2, a2, c2, b2 - db)) / (2 * h); an = J4.col(k - 18); }
        transition();
        const double err = (fd - an).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
        VH_EXPECT(err < 1e-6 * (1 + fd.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()), "jacobian", "%s: block %s column %d differs from the derivative by %g", where.c_str(), k < 6 ? "start pose" : k < 12 ? "end pose" : k < 15 ? "start velocity" : k < 18 ? "end velocity" : "bias", k < 12 ? k % 6 : k < 18 ? k % 3 : k - 18, err);
        VH_EXPECT(err == err, "jacobian", "%s: not a number", where.c_str());
    }
}

// ---- splitting
struct Piece { DQ x; Vec3 v; };
static Piece runOn(const ImuModel& f, const Piece& a)
{
    Piece b;
    f.computeEndState(a.x, a.v, Out<DQ>(b.x), Out<Vec3>(b.v));
    return b;
}
static const Motion* g_mo; static Vec6 g_b0; static Q g_q;
static std::vector<int64_t> g_ts;
static void build(std::unique_ptr<ImuModel>& f)
{
    f.reset(new ImuModel(ideal(*g_mo, g_ts[0], g_b0), g_b0, NOISE));
    for (size_t i = 1; i < g_ts.size(); ++i) f->integrate(ideal(*g_mo, g_ts[i], g_b0));
}
static const double QN = TIME_QUANTIZATION;
static void checkPiece(const ImuModel& f, const UTCTime& a, const UTCTime& b, const std::string& w)
{
    VH_EXPECT(std::fabs((f.t0() - a).toSec()) <= QN && std::fabs((f.tf() - b).toSec()) <= QN, "split-interval", "%s: a part runs from %.7f to %.7f s after its intended start, which lasts %.7f s", w.c_str(), (f.t0() - a).toSec(), (f.tf() - a).toSec(), (b - a).toSec());
}
// t1 < t2 (or t2 < 0): split at t1, then the second part at t2; the parts one after the other end where the whole does
static void split(int64_t t1, int64_t t2, const std::string& where)
{
    ctxs(where);
    static std::unique_ptr<ImuModel> f, a, b, c;
    eval(); trace();
    if (dies([&] { build(f); })) { violation("integrate-refused", where + ": a well-ordered series of samples ended the process"); return; }
    const auto vb = g_mo->R0.T() * g_mo->v0;
    const Piece s{DQ(g_q, Vec3(100, -20, 3)), Vec3(vb[0], vb[1], vb[2])};
    const Piece whole = runOn(*f, s);
    int64_t dmax = 0;
    for (size_t i = 1; i < g_ts.size(); ++i) dmax = std::max(dmax, g_ts[i] - g_ts[i - 1]);
    const double dt = dmax * 1e-9, T = (g_ts.back() - g_ts[0]) * 1e-9;
    const double acc = (double)(g_mo->acc.norm() + G) + 1, w = (double)g_mo->w.norm();
    // a cut between samples replaces one step of first-order integration by two; a cut within the quantum of a sample moves it
    bool on = true;
    for (int64_t t : {t1, t2}) if (t >= 0) { bool o = false; for (int64_t q : g_ts) o = o || q == t; on = on && o; }
    const int cuts = t2 >= 0 ? 2 : 1;
    const double ptol = on ? 1e-9 : cuts * (acc * dt * dt + acc * dt * w * dt * T) + 1e-9;
    const double vtol = on ? 1e-9 : cuts * (acc * w * dt * dt) + 1e-9;
    const UTCTime A = at_ns(g_ts[0]), B = at_ns(t1), C = at_ns(g_ts.back());
    if (dies([&] { a = std::make_unique<ImuModel>(f->split(B)); })) { violation("split-ends-process", where + ": splitting inside the interval ended the process"); return; }
    transition();
    checkPiece(*f, A, B, where); checkPiece(*a, B, C, where);
    const double gap = std::fabs((a->t0() - f->tf()).toSec());
    VH_EXPECT(gap <= QN / 2 + 1e-9, "split-gap", "%s: the parts are %g s apart", where.c_str(), gap);
    double gap2 = 0;
    Piece m = runOn(*f, s), e;
    if (t2 >= 0)
    {
        if (dies([&] { b = std::make_unique<ImuModel>(a->split(at_ns(t2))); })) { violation("split-ends-process", where + ": splitting the second part ended the process"); return; }
        transition();
        checkPiece(*a, B, at_ns(t2), where); checkPiece(*b, at_ns(t2), C, where);
        gap2 = std::fabs((b->t0() - a->tf()).toSec());
        VH_EXPECT(gap2 <= QN / 2 + 1e-9, "split-gap", "%s: the parts are %g s apart", where.c_str(), gap2);
        e = runOn(*b, runOn(*a, m));
    }
    else e = runOn(*a, m);
    const double slack = (gap + gap2) * (s.v.norm() + acc + 3) * 2;
    const double pe = poseErr(e.x, whole.x), ve = vecErr(e.v, whole.v);
    VH_EXPECT(pe <= ptol + slack, "split-pose", "%s: the parts end %g away from the whole (allowed %g)", where.c_str(), pe, ptol + slack);
    VH_EXPECT(ve <= vtol + slack, "split-velocity", "%s: the parts end %g away in velocity (allowed %g)", where.c_str(), ve, vtol + slack);
    // the middle is on the motion
    const ld t = t1 * 1e-9L;
    const auto p = rv3<ld>(Vec3(100, -20, 3)) + g_mo->v0 * t + g_mo->acc * (t * t / 2);
    const auto pm = m.x.translation();
    const double tol = 2 * acc * dt * (double)t * (1 + w) + 1e-9 + QN * (s.v.norm() + acc);
    for (int i = 0; i < 3; ++i) VH_EXPECT(std::fabs((double)(pm(i) - p[i])) <= tol, "split-middle", "%s: at the split the first part is %g away from the motion (allowed %g)", where.c_str(), (double)(pm(i) - p[i]), tol);
    outcome(mix(std::llround(pe * 1e9), std::llround(ve * 1e9)));
    // both parts keep growing
    if (t2 < 0)
    {
        const auto next = ideal(*g_mo, g_ts.back() + 5000000, g_b0);
        build(c);
        c->integrate(next); a->integrate(next);
        const Piece w2 = runOn(*c, s), e3 = runOn(*a, m);
        VH_EXPECT(poseErr(e3.x, w2.x) <= ptol + slack + vtol * 0.01 && vecErr(e3.v, w2.v) <= vtol + slack, "split-continue", "%s: after one more sample the second part ends %g away from the whole", where.c_str(), poseErr(e3.x, w2.x));
        // information matrices of both parts exist
        c->finished(); a->finished(); if (f->numUpdates() > 0) f->finished();
        VH_EXPECT(isFinite(a->Xi()) && isFinite(c->Xi()), "information", "%s", where.c_str());
    }
}

// motions that change between the samples: turning about one axis at a changing rate, accelerating without turning. Both have
// closed solutions for rates and accelerations that run straight from sample to sample.
static void varying(const std::vector<int>& w, int sp, bool turn, const Vec3& axis, const Vec6& b0)
{
    const std::string where = str("%s at values %s, spacing %d, axis %g %g %g, bias %g", turn ? "turning" : "accelerating", wstr(w).c_str(), sp, axis(0), axis(1), axis(2), b0(0));
    ctxs(where);
    static const int64_t SPC[3][3] = {{4000000, 4000000, 4000000}, {1000000, 20000000, 7000000}, {300000, 50000000, 300000}};
    static const double VAL[3] = {-2, 0.5, 3};
    std::vector<int64_t> ts{0};
    for (size_t i = 1; i < w.size(); ++i) ts.push_back(ts.back() + SPC[sp][i % 3]);
    auto sample_at = [&](size_t i) {
        meas::ImuSample z; z.t = at_ns(ts[i]);
        z.accel = b0.head<3>() + (turn ? Vec3(0.3, -0.2, -9.8) : Vec3(axis * VAL[w[i]]));
        z.gyro = b0.tail<3>() + (turn ? Vec3(axis * VAL[w[i]]) : Vec3::Zero());
        return z;
    };
    std::vector<ld> want{0};   // angle or velocity at the samples
    for (size_t i = 1; i < w.size(); ++i) want.push_back(want.back() + (ld)(VAL[w[i]] + VAL[w[i - 1]]) / 2 * (ts[i] - ts[i - 1]) * 1e-9L);
    auto wantAt = [&](int64_t t) {
        size_t i = 1;
        while (i + 1 < ts.size() && ts[i] < t) ++i;
        const ld u = (ld)(t - ts[i - 1]) / (ts[i] - ts[i - 1]), a = VAL[w[i - 1]], b = VAL[w[i]];
        return want[i - 1] + (a + (a + (b - a) * u)) / 2 * u * (ts[i] - ts[i - 1]) * 1e-9L;
    };
    const Q q0 = Q::from_euler(0.4, -0.3, 1.2);
    auto build = [&] { ImuModel f(sample_at(0), b0, NOISE); for (size_t i = 1; i < ts.size(); ++i) { f.integrate(sample_at(i)); transition(); } return f; };
    auto test = [&](const ImuModel& f, ld from, ld to, int64_t n0, int64_t n1, const char* what, double tol) {
        DQ e; Vec3 v;
        const Vec3 v0(1, 2, 3);
        if (f.numUpdates() == 0) return;
        f.computeEndState(DQ(q0, Vec3(0, 0, 0)), v0, Out<DQ>(e), Out<Vec3>(v));
        if (turn)
        {
            const Q d = q0.inverse() * e.rotation();
            const auto D = rotm<ld>(d.arr_.data()), W = expm(rv3<ld>(Vec3(axis * (double)(to - from))));
            ld x = 0;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x = worse(x, fabsl(D.m[i][j] - W.m[i][j]));
            VH_EXPECT(x < tol, "varying-rate", "%s: %s turns %.9Lg, attitude off by %.3Lg", where.c_str(), what, to - from, x);
        }
        else
        {
            const Vec3 g = q0.rotp(Vec3(0, 0, 9.80665)) * ((n1 - n0) * 1e-9);
            const double x = (v - v0 - g - axis * (double)(to - from)).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
            VH_EXPECT(x < tol, "varying-acceleration", "%s: %s gains %.9Lg, velocity off by %.3g", where.c_str(), what, to - from, x);
        }
    };
    ImuModel f = build();
    test(f, 0, want.back(), 0, ts.back(), "the whole", 1e-9);
    eval(); trace();
    for (size_t i = 1; i < ts.size(); ++i)
        for (int k = 1; k <= 4; ++k)
        {
            const int64_t t = ts[i - 1] + (ts[i] - ts[i - 1]) * k / 4;
            if (t >= ts.back() - 51000 || t <= 51000) continue;
            ImuModel a = build(), b = a.split(at_ns(t));
            // a split next to a sample may be moved to it
            bool near = false;
            for (int64_t s : ts) if (s != t && llabs(s - t) <= 101000) near = true;
            const double tol = near ? 9.81 * 1.1e-4 + 4e-4 : 1e-9;
            test(a, 0, wantAt(t), 0, t, "the first part", tol);
            test(b, wantAt(t), want.back(), t, ts.back(), "the second part", tol);
        }
    state(hstr(where)); nontrivial(hstr(where));
}
// the covariance of the factor is that of the noise of its steps carried to the end, and its information root is of the inverse of that
// (the residual itself is not weighted: Xi() is what a caller weighs it with)
static void weight(const Motion& mo, const Vec6& b0, const Vec6& noise, int64_t step, int n, const std::string& where)
{
    ctxs(where);
    auto make = [&](const std::vector<Vec6>& add) {
        ImuModel f([&] { auto z = ideal(mo, 0, b0); z.accel += add[0].head<3>(); z.gyro += add[0].tail<3>(); return z; }(), b0, noise);
        for (int i = 1; i <= n; ++i) { auto z = ideal(mo, i * step, b0); z.accel += add[i].head<3>(); z.gyro += add[i].tail<3>(); f.integrate(z); }
        transition();
        return f;
    };
    const std::vector<Vec6> none(n + 1, Vec6::Zero());
    ImuModel f = make(none);
    Mat9 ref = Mat9::Zero();
    const double h = 1e-4;
    for (int k = 0; k < n; ++k)
        for (int c = 0; c < 6; ++c)
        {
            // moves the mean of step k alone: the samples behind it alternate
            Vec9 d[2];
            for (int sg = 0; sg < 2; ++sg)
            {
                auto add = none;
                for (int j = k + 1; j <= n; ++j) add[j](c) = ((j - k) % 2 ? 2 : -2) * (sg ? -h : h);
                const ImuModel g = make(add);
                const ImuErrorState e = g.state() - f.state();
                d[sg] << e.alpha, e.beta, e.gamma;
            }
            const Vec9 g = (d[0] - d[1]) / (2 * h);
            ref += noise(c) * g * g.transpose();
        }
    eval(); trace();
    const Mat9 C = f.covariance();
    // positions integrate by first-order steps: relative to the deviations, one step in n
    const double tol = 4.0 / n + 1e-6;
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j)
        VH_EXPECT(std::fabs(C(i, j) - ref(i, j)) <= tol * std::sqrt(ref(i, i) * ref(j, j)), "covariance", "%s: entry %d,%d is %g, the noise gives %g", where.c_str(), i, j, C(i, j), ref(i, j));
    f.finished();
    const Mat9 C1 = f.covariance();
    VH_EXPECT((C1 - C).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= (n <= 2 ? 1.1e-15 : 0), "covariance", "%s: finishing changes it", where.c_str());
    const Mat9 E = f.Xi() * C1 * f.Xi().transpose() - Mat9::Identity();
    VH_EXPECT(E.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-6, "information", "%s: weight and covariance do not match: %g", where.c_str(), E.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    state(hstr(where)); nontrivial(hstr(where));
}

int main()
{
    vh::init();
    if (!freopen("/dev/null", "w", stdout)) return 3;
    const auto R = rots(thorough() ? 40 : 6);
    const Vec3 Z = Vec3::Zero();
    std::vector<V3<ld>> W = {{0, 0, 0}, {0, 0, 0.8L}, {1.5L, 0, 0}, {0.3L, -0.2L, 0.9L}}, A = {{0, 0, 0}, {0, 0, 9.80665L}, {1, 0, 0}, {-2, 3, 1}}, V = {{0, 0, 0}, {7, -3, 2}};
    std::vector<Vec6> bs = {Vec6::Zero(), (Vec6() << 0.2, -0.1, 0.3, 0.05, -0.02, 0.03).finished()};
    uint64_t idx = 0;
    for (size_t r = 0; r < R.size(); ++r)
        for (int g = 0; g < 4; ++g) for (int c = 0; c < 4; ++c) for (int v = 0; v < 2; ++v) for (int b = 0; b < 2; ++b)
        {
            if (!mine(idx++)) continue;
            Motion mo{rotm<ld>(R[r].arr_.data()), W[g], V[v], A[c]};
            const std::string w = str("motion: attitude %zu, rate %d, acceleration %d, velocity %d, bias %d", r, g, c, v, b);
            const int64_t step = 8000000;
            const ld e1 = follow(mo, R[r], bs[b], step, 100, w), e2 = follow(mo, R[r], bs[b], step / 2, 200, w + " at half the step");
            const ld bound = 0.008L * (mo.acc.norm() + G) * (1 + mo.w.norm()) + 1e-7L;
            VH_EXPECT(e1 <= bound, "motion", "%s: off by %.6Lg after 0.8 s, more than %.6Lg", w.c_str(), e1, bound);
            VH_EXPECT(e2 <= 0.6L * e1 + 1e-7L, "motion-converges", "%s: off by %.6Lg, with half the step by %.6Lg", w.c_str(), e1, e2);
            factor(mo, R[r], bs[b], "factor on " + w);
            state(mix(mix(99, r), ((g * 4 + c) * 2 + v) * 2 + b));
            nontrivial(mix(mix(99, r), ((g * 4 + c) * 2 + v) * 2 + b));
        }
    for (int n = 2; n <= (thorough() ? 6 : 5); ++n)
        words(3, n, [&](const std::vector<int>& w) {
            for (int sp = 0; sp < 3; ++sp) for (int t = 0; t < 2; ++t) for (int b = 0; b < 2; ++b)
                for (const Vec3& ax : {Vec3(1, 0, 0), Vec3(0, 1, 0), Vec3(0, 0, 1), Vec3(0.6, -0.48, 0.64)}) varying(w, sp, t, ax, bs[b]);
        });
    for (int g = 0; g < 4; ++g) for (int c = 0; c < 4; ++c) for (int b = 0; b < 2; ++b) for (int k = 0; k < 3; ++k)
    {
        if (!mine(idx++)) continue;
        Motion mo{rotm<ld>(R[(g * 4 + c) % R.size()].arr_.data()), W[g], V[b], A[c]};
        Vec6 nz = NOISE;
        if (k == 1) nz = Vec6::Constant(0.25);
        if (k == 2) nz << 1e-4, 4, 1e-2, 1e-6, 1e-2, 1;
        weight(mo, bs[b], nz, 4000000, thorough() ? 60 : 24, str("weight: rate %d, acceleration %d, bias %d, noise %d", g, c, b, k));
    }
    // all spacings of samples over three, all split times on a grid finer than the quantum and around every sample
    const auto RS = rots(2, false);
    const int64_t SP[3] = {100000, 1300000, 10000000};
    const int L = thorough() ? 6 : 5;
    Motion mo{rotm<ld>(RS[4].arr_.data()), W[3], V[1], A[3]};
    g_mo = &mo; g_q = RS[4]; g_b0 = bs[1];
    for (int len = 1; len <= L; ++len)
        every(3, len, [&](const std::vector<int>& wd) {
            if (!mine(idx++)) return;
            g_ts = {0};
            for (int i : wd) g_ts.push_back(g_ts.back() + SP[i]);
            std::set<int64_t> cut;
            for (int64_t s : g_ts) for (int64_t d : {-110000, -100000, -90000, -70000, -51000, -49000, -20000, 0, 20000, 49000, 51000, 70000, 90000, 100000, 110000}) cut.insert(s + d);
            for (size_t i = 1; i < g_ts.size(); ++i) for (int k = 1; k < (thorough() ? 32 : 16); ++k) cut.insert(g_ts[i - 1] + (g_ts[i] - g_ts[i - 1]) * k / (thorough() ? 32 : 16));
            std::vector<int64_t> cs;
            for (int64_t t : cut) if (t > 50000 && t < g_ts.back() - 50000) cs.push_back(t);   // inside, as the quantized comparison sees it
            for (size_t i = 0; i < cs.size(); ++i)
            {
                split(cs[i], -1, str("split of samples spaced %s at %.1f us", wstr(wd).c_str(), cs[i] / 1e3));
                state(mix(mix(7, hstr(wstr(wd))), cs[i]));
                if (len < L || thorough())
                    for (size_t j = i + 1; j < cs.size(); j += 1 + (i + len) % 3)
                        if (cs[j] - cs[i] > 101000)
                        {
                            split(cs[i], cs[j], str("split of samples spaced %s at %.1f and %.1f us", wstr(wd).c_str(), cs[i] / 1e3, cs[j] / 1e3));
                            state(mix(mix(8, hstr(wstr(wd))), cs[i] * 100000007ll + cs[j])); nontrivial(mix(mix(8, hstr(wstr(wd))), cs[i] * 100000007ll + cs[j]));
                        }
            }
        });
    sample("ideal-IMU motions; factor residuals and Jacobians; all splits and double splits of all spacings of up to 4 steps over {0.1, 1.3, 10} ms");
    return vh::finish();
}
