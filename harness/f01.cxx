// F01: the pseudorange factor: predicted range and range rate from the geometry, whitening, switch, derivatives.
#include "vh.h"
#include "models/prange_model.h"
#include "utils/wgs84.h"
#include "fakesat.h"
#include "rots.h"
using namespace mc;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
typedef Eigen::Matrix<double, 3, 8, Eigen::RowMajor> J8;

struct P { DQ nb; Vec3 vel; Vec2 clk; DQ rn; double sw; Vec3 lev; };
template <class S> struct Ref { Pose<S> e, r, n; V3<S> vel, lev; S clk[2], sw; };
template <class S> static Ref<S> refOf(const P& p, const DQ& e)
{
    Ref<S> r;
    r.e = refPose<S>(e); r.r = refPose<S>(p.rn); r.n = refPose<S>(p.nb);
    r.vel = rv3<S>(p.vel); r.lev = rv3<S>(p.lev);
    r.clk[0] = S((ld)p.clk(0)); r.clk[1] = S((ld)p.clk(1)); r.sw = S((ld)p.sw);
    return r;
}
template <class S> static void antenna(const Ref<S>& r, V3<S>& p, V3<S>& v)
{
    p = r.e.R * (r.r.R * (r.n.R * r.lev + r.n.t) + r.r.t) + r.e.t;
    v = r.e.R * (r.r.R * (r.n.R * r.vel));
}
static Ref<Du> moved(Ref<Du> r, int k)
{
    const Du e(0, 1);
    if (k < 6) r.n = r.n.moved(k, e);
    else if (k < 9) r.vel[k - 6] = r.vel[k - 6] + e;
    else if (k < 11) r.clk[k - 9] = r.clk[k - 9] + e;
    else if (k < 17) r.r = r.r.moved(k - 11, e);
    else if (k < 18) r.sw = r.sw + e;
    else r.lev[k - 18] = r.lev[k - 18] + e;
    return r;
}
static const char* const BLOCK[6] = {"pose", "velocity", "clock", "origin", "switch", "lever arm"};
static int blockOf(int k) { return k < 6 ? 0 : k < 9 ? 1 : k < 11 ? 2 : k < 17 ? 3 : k < 18 ? 4 : 5; }

static void one(const models::PseudorangeModel& f, const meas::GnssObservation& obs, const FakeSat& sat, const FakeSat::Hop& hop, const satellite::AtmosphericCorrection& atm,
                const DQ& Te, const P& p, const Mat3& cov, bool diag, bool jac, const std::string& where)
{
    ctxs(where);
    const double* prm[] = {p.nb.data(), p.vel.data(), p.clk.data(), p.rn.data(), &p.sw, p.lev.data()};
    Vec3 res;
    J8 j0, j3; Eigen::Matrix<double, 3, 3, Eigen::RowMajor> j1, j5; Eigen::Matrix<double, 3, 2, Eigen::RowMajor> j2; Vec3 j4;
    for (double* q : {j0.data(), j3.data()}) for (int i = 0; i < 24; ++i) q[i] = NAN;
    j1.setConstant(NAN); j5.setConstant(NAN); j2.setConstant(NAN); j4.setConstant(NAN);
    double* J[] = {j0.data(), j1.data(), j2.data(), j3.data(), j4.data(), j5.data()};
    f.Evaluate(prm, res.data(), jac ? J : nullptr);
    eval();
    const auto r = refOf<ld>(p, Te);
    V3<ld> pos, v;
    antenna(r, pos, v);
    const V3<ld> ps(hop.p[0], hop.p[1], hop.p[2]), vs(hop.v[0], hop.v[1], hop.v[2]), los = ps - pos;
    const ld n = los.norm(), C = C_LIGHT;
    const auto pr = rv3<ld>(Te.translation());
    // the Earth-rotation term and the atmosphere are those of the reference position the model was made with
    const ld sag = (ld)OMEGA_EARTH / C * (ps[0] * pr[1] - ps[1] * pr[0]);
    const ld range = n + sag + atm.ionospheric_delay_m + atm.tropospheric_delay_m + C * (r.clk[0] * 1e-9L - hop.c[0]);
    const V3<ld> e = los * (1 / n);
    const ld dop = (vs - v).dot(e) + C * (r.clk[1] * 1e-9L - hop.c[1]);
    const ld rot = (ld)OMEGA_EARTH / C * (vs[0] * pos[1] + ps[0] * v[1] - vs[1] * pos[0] - ps[1] * v[0]);
    const ld raw[3] = {p.sw * (range - obs.pseudorange), p.sw * (dop + rot - obs.doppler), 1 - p.sw};
    const ld other = p.sw * (dop - rot - obs.doppler);
    if (diag)
    {
        const double s0 = std::sqrt(cov(0, 0)), s1 = std::sqrt(cov(1, 1)), s2 = std::sqrt(cov(2, 2));
        VH_EXPECT(std::fabs((double)(res(0) * s0 - raw[0])) < 3e-3 * p.sw + 1e-9, "range", "%s: residual %.6f m, geometry gives %.6Lf m", where.c_str(), res(0) * s0, raw[0]);
        const double d = res(1) * s1;
        if (!(std::fabs((double)(d - raw[1])) < 2e-3 * p.sw + 1e-9))
        {
            if (std::fabs((double)(d - other)) < 2e-3 * p.sw + 1e-9) violation("doppler-earth-rotation-sign", str("%s: residual %.6f m/s; the rate of the modelled range gives %.6Lf, with the Earth-rotation term reversed %.6Lf", where.c_str(), d, raw[1], other));
            else violation("doppler", str("%s: residual %.6f m/s, geometry gives %.6Lf m/s", where.c_str(), d, raw[1]));
        }
        VH_EXPECT(std::fabs(res(2) * s2 - (1 - p.sw)) < 1e-12, "switch", "%s: residual %g for switch %g", where.c_str(), res(2) * s2, p.sw);
        outcome(mix(std::llround(res(0) * s0), std::llround(d)));
    }
    if (!jac) return;
    const Mat3 W = cov.inverse();
    const auto rd = refOf<Du>(p, Te);
    Eigen::Matrix<double, 3, 21> A, B;   // what the factor says; derivative of the unwhitened residual
    for (int k = 0; k < 21; ++k)
    {
        V3<Du> pd, vd;
        const auto m = moved(rd, k);
        antenna(m, pd, vd);
        ld dp = 0, dv = 0;
        for (int a = 0; a < 3; ++a) { dp -= e[a] * pd[a].d; dv -= e[a] * vd[a].d; }
        dp += C * 1e-9L * m.clk[0].d; dv += C * 1e-9L * m.clk[1].d;
        B(0, k) = k == 17 ? (double)(range - obs.pseudorange) : p.sw * (double)dp;
        B(1, k) = k == 17 ? (double)(dop - rot - obs.doppler) : p.sw * (double)dv;
        B(2, k) = k == 17 ? -1 : 0;
        if (k < 6 || (k >= 11 && k < 17))
        {
            const DQ& q = k < 6 ? p.nb : p.rn;
            Vec6 d = Vec6::Zero(); d(k < 6 ? k : k - 11) = 1e-5;
            const DQ a = q * DQ::exp(d), b = q * DQ::exp(-d);
            A.col(k) = (k < 6 ? j0 : j3) * (Vec8(a.arr_) - Vec8(b.arr_)) / 2e-5;
        }
        else A.col(k) = k < 9 ? j1.col(k - 6) : k < 11 ? j2.col(k - 9) : k == 17 ? j4 : j5.col(k - 18);
        transition();
    }
    // residual = U raw with U'U = cov^-1, so U = res * raw^-1 is not needed: compare A'A and A'res with what they must be
    // (any square root will do), and column by column for diagonal covariances
    if (diag)
    {
        const Vec3 s(std::sqrt(cov(0, 0)), std::sqrt(cov(1, 1)), std::sqrt(cov(2, 2)));
        for (int k = 0; k < 21; ++k) for (int i = 0; i < 3; ++i)
        {
            const double got = A(i, k) * s(i), tol = k == 17 ? (i == 0 ? 3e-3 : i == 1 ? 2.5e-2 : 1e-9) : 1e-6 * (1 + std::fabs(B(i, k)));
            VH_EXPECT(std::fabs(got - B(i, k)) < tol, "jacobian", "%s: row %d, %s: %.9g, derivative %.9g", where.c_str(), i, BLOCK[blockOf(k)], got, B(i, k));
        }
    }
    else
    {
        const Eigen::MatrixXd got = A.transpose() * A, want = B.transpose() * W * B;
        for (int i = 0; i < 21; ++i) for (int k = 0; k < 21; ++k)
        {
            if (i == 17 || k == 17) continue;
            const double tol = 1e-6 * (std::sqrt(want(i, i) * want(k, k)) + std::sqrt(W.norm()));
            VH_EXPECT(std::fabs(got(i, k) - want(i, k)) <= tol, "jacobian-correlated", "%s: information between %s and %s is %.9g, should be %.9g", where.c_str(), BLOCK[blockOf(i)], BLOCK[blockOf(k)], got(i, k), want(i, k));
        }
        // the switch column is the derivative of the residual as it is
        P q = p; q.sw += 0.25;
        const double* prm2[] = {q.nb.data(), q.vel.data(), q.clk.data(), q.rn.data(), &q.sw, q.lev.data()};
        Vec3 res2;
        f.Evaluate(prm2, res2.data(), nullptr);
        const Vec3 ds = (res2 - res) / 0.25;
        VH_EXPECT((ds - j4).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= 1e-6 * (1 + ds.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()), "jacobian-correlated", "%s: switch: (%g %g %g), residual changes by (%g %g %g)", where.c_str(), j4(0), j4(1), j4(2), ds(0), ds(1), ds(2));
        const Vec3 rw((double)raw[0], (double)(other), (double)raw[2]);
        const double want2 = rw.dot(W * rw), got2 = res.squaredNorm();
        VH_EXPECT(std::fabs(want2 - got2) <= 3e-2 * W.norm() * (1 + rw.norm()), "whitening", "%s: squared residual %.9g, should be %.9g", where.c_str(), got2, want2);
    }
}

int main()
{
    vh::init();
    const auto R = rots(thorough() ? 12 : 2, thorough());
    const std::vector<Vec3> recs = {{-1798810.2, -4532232.5, 4099784.7}, {6378137.0, 0, 100}, {0, -6378200.0, -50}, {-3.9e6, 3.3e6, 3.8e6}, {100, 200, 6356800}, {4.5e6, 4.5e5, -4.5e6}};
    const UTCTime T(1561988124, 550000000);
    std::vector<FakeSat> sats;
    for (int i = 0; i < 8; ++i) sats.emplace_back(i % 3 == 0 ? GnssID::GPS : i % 3 == 1 ? GnssID::Galileo : GnssID::Glonass, i + 1, 0.8L * i, 0.95L, 0.7L * i * i, UTCTime(1561988000, 1000), 1e-5L * (i - 3), 1e-11L * (5 - i), 0.19 + 0.01 * i);
    std::vector<Mat3> covs(4, Mat3::Identity());
    covs[1].diagonal() << 9, 0.25, 4e-2;
    covs[2] << 9, 0.5, 0, 0.5, 0.25, 0, 0, 0, 0.04;
    covs[3] << 4, 0.3, 0.1, 0.3, 0.5, -0.05, 0.1, -0.05, 0.09;
    uint64_t idx = 0;
    for (size_t c = 0; c < recs.size(); ++c)
        for (size_t s = 0; s < sats.size(); ++s)
            for (int cv = 0; cv < 4; ++cv)
            {
                if (!mine(idx++)) continue;
                const DQ Te = utils::WGS84::dq_ecef2ned(recs[c]);
                const ld t = sats[s].since(T);
                const ld rec[3] = {recs[c](0), recs[c](1), recs[c](2)};
                const auto hop = sats[s].hop(t, rec);
                satellite::SatelliteState st;
                sats[s].getState(T - (double)(hop.range / C_LIGHT), Out<satellite::SatelliteState>(st));
                satellite::AtmosphericCorrection atm;
                satellite::computeAtmCorrection(T, recs[c], st, Out<satellite::AtmosphericCorrection>(atm));
                meas::GnssObservation obs;
                obs.t = T; obs.gnss_id = sats[s].gnssId(); obs.sat_num = sats[s].sat_num(); obs.freq = 0; obs.carrier_phase = 0;
                obs.pseudorange = (double)hop.range + 37.5; obs.doppler = 12.25 * (s - 3.0);
                ctx("receiver %zu satellite %zu covariance %d", c, s, cv);
                const models::PseudorangeModel f(obs, sats[s], recs[c], covs[cv], Te);
                for (size_t a = 0; a < R.size(); ++a)
                    for (int k = 0; k < 3 * 3 * 2 * 3 * 2; ++k)
                    {
                        const int b = k % 3, v = k / 3 % 3, l = k / 9 % 2, w = k / 18 % 3, o = k / 54;
                        P p;
                        p.nb = DQ(R[a], b == 0 ? Vec3(0, 0, 0) : b == 1 ? Vec3(25, -40, 3) : Vec3(-300, 120, -15));
                        p.vel = v == 0 ? Vec3(0, 0, 0) : v == 1 ? Vec3(9, 0, 0) : Vec3(12.5, -3.25, 0.5);
                        p.lev = l ? Vec3(0.3, -0.7, 1.1) : Vec3(0, 0, 0);
                        p.sw = w == 0 ? 1.0 : w == 1 ? 0.35 : 0.0;
                        p.rn = o ? DQ(R[(a + 2) % R.size()], Vec3(10, 20, -5)) : DQ();
                        p.clk = Vec2(250.5 * (b + 1), -33.25 * (v + 1));
                        one(f, obs, sats[s], hop, atm, Te, p, covs[cv], cv < 2, true, str("pseudorange: receiver %zu, satellite %zu, covariance %d, attitude %zu, position %d, velocity %d, lever %d, switch %g, origin %d", c, s, cv, a, b, v, l, p.sw, o));
                        state(mix(mix(c * 8 + s, cv * 64 + a), k)); trace();
                        if (a > 0 && b && v && l && p.sw > 0) nontrivial(mix(mix(c * 8 + s, cv * 64 + a), k));
                    }
            }
    sample("receivers x satellites x covariances x attitudes x positions x velocities x lever arms x switch values x origins");
    return vh::finish();
}
