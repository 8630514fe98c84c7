// J01: what the RTK filter expects to measure follows from the geometry, and its Jacobians are the derivatives.
#include "vh.h"
#include "core/ekf/rtk_ekf.h"
#include "dual.h"
#include "rots.h"
using namespace mc;
using namespace mc::ekf;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;

template <class S> struct RX { Pose<S> b, e; V3<S> lev, vel, w; S clk[3][2]; };
template <class S> static RX<S> refOf(const State& x, const Input& u)
{
    RX<S> r;
    r.b = refPose<S>(x.pose); r.e = refPose<S>(x.T_I2e);
    r.lev = rv3<S>(x.p_b2g); r.vel = rv3<S>(x.vel); r.w = rv3<S>(u.gyro);
    for (int i = 0; i < 2; ++i) { r.clk[0][i] = S((ld)x.gps_clk(i)); r.clk[1][i] = S((ld)x.gal_clk(i)); r.clk[2][i] = S((ld)x.glo_clk(i)); }
    return r;
}
// antenna position and velocity in the Earth frame
template <class S> static void antenna(const RX<S>& r, V3<S>& p, V3<S>& v)
{
    const M3<S> Re = r.e.R.T();
    p = Re * (r.b.R * r.lev + r.b.t - r.e.t);
    v = Re * (r.b.R * (r.w.cross(r.lev) + r.vel));
}
// columns: pose 0..5, T_I2e 6..11, p_b2g 12..14, vel 15..17, clocks 18..23 (gps, gal, glo)
static RX<Du> moved(RX<Du> r, int k)
{
    const Du e(0, 1);
    if (k < 6) r.b = r.b.moved(k, e);
    else if (k < 12) r.e = r.e.moved(k - 6, e);
    else if (k < 15) r.lev[k - 12] = r.lev[k - 12] + e;
    else if (k < 18) r.vel[k - 15] = r.vel[k - 15] + e;
    else r.clk[(k - 18) / 2][(k - 18) % 2] = r.clk[(k - 18) / 2][(k - 18) % 2] + e;
    return r;
}

static DQ dq(const Q& q, const Vec3& t) { return DQ(q, t); }

template <class J> static void paint(J& j) { memset(reinterpret_cast<char*>(&j), 0xFF, sizeof j); }
static bool close(ld a, ld b, ld tol) { ld d = a - b; return d == d && fabsl(d) <= tol; }

static void pointPos(const State& x, const Input& u, const Vec6& z, const std::string& where, bool jacobian)
{
    ctxs(where);
    const auto ref = refOf<ld>(x, u);
    V3<ld> p, v;
    antenna(ref, p, v);
    const ld sc = 1 + ref.b.t.norm() + ref.e.t.norm() + ref.lev.norm(), sv = 1 + ref.vel.norm() + ref.w.norm() * ref.lev.norm();
    static pointPosMeas::Jac J;
    paint(J);
    const Vec6 r = h<pointPosMeas>(z, x, jacobian ? &J : nullptr, u);
    eval();
    for (int i = 0; i < 3; ++i)
    {
        VH_EXPECT(close(r(i), (ld)z(i) - p[i], 1e-12L * (sc + fabsl(z(i)))), "point_pos-position", "%s: axis %d: residual %.9g, geometry gives %.9Lg", where.c_str(), i, r(i), (ld)z(i) - p[i]);
        VH_EXPECT(close(r(3 + i), (ld)z(3 + i) - v[i], 1e-12L * (sv + fabsl(z(3 + i)))), "point_pos-velocity", "%s: axis %d: residual %.9g, geometry gives %.9Lg", where.c_str(), i, r(3 + i), (ld)z(3 + i) - v[i]);
    }
    outcome(mix(std::llround(r(0) * 1e3), std::llround(r(3) * 1e3)));
    if (!jacobian) return;
    const auto rd = refOf<Du>(x, u);
    for (int k = 0; k < 18; ++k)
    {
        V3<Du> pd, vd;
        antenna(moved(rd, k), pd, vd);
        for (int i = 0; i < 6; ++i)
        {
            const ld want = -(i < 3 ? pd[i].d : vd[i - 3].d);
            const double got = k < 6 ? J.dPose(i, k) : k < 12 ? J.dTI2e(i, k - 6) : k < 15 ? J.dPB2g(i, k - 12) : J.dVel(i, k - 15);
            VH_EXPECT(close(got, want, 1e-11L * (1 + fabsl(want) + (i < 3 ? sc : sv))), "point_pos-jacobian", "%s: row %d column %d: %.9g, derivative %.9Lg", where.c_str(), i, k, got, want);
        }
        transition(6);
    }
}

static const int SYS[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};
static std::vector<satellite::SatelliteCache> g_sats;

static void obs(const State& x, const Input& u, const std::vector<int>& sys, const std::vector<int>& sat, const std::string& where, bool jacobian)
{
    ctxs(where);
    const int n = sys.size();
    obsMeas::ZType z;
    for (int i = 0; i < n; ++i) z.push_back({Vec2(2.1e7 + 1000 * i, -300.0 + 7 * i), g_sats[sat[i]], SYS[sys[i]]});
    static obsMeas::Jac J;
    paint(J);
    const obsMeas::Residual r = h<obsMeas>(z, x, jacobian ? &J : nullptr, u);
    eval();
    const auto ref = refOf<ld>(x, u);
    V3<ld> p, v;
    antenna(ref, p, v);
    for (int i = 0; i < n; ++i)
    {
        const auto& s = g_sats[sat[i]];
        const V3<ld> ps = rv3<ld>(s.state.pos), vs = rv3<ld>(s.state.vel);
        const V3<ld> los = ps - p;
        const ld rho = los.norm();
        const V3<ld> e = los * (1 / rho);
        const ld range = rho + s.sagnac + s.atm.ionospheric_delay_m + s.atm.tropospheric_delay_m + (ld)C_LIGHT * (ref.clk[sys[i]][0] / 1e9L - s.state.clk(0));
        // rate of the range over the rotating Earth: d/dt (|ps - p| + W/c (psx py - psy px))
        const ld sag = (ld)OMEGA_EARTH / C_LIGHT * (vs[0] * p[1] + ps[0] * v[1] - vs[1] * p[0] - ps[1] * v[0]);
        const ld base = (vs - v).dot(e) + (ld)C_LIGHT * (ref.clk[sys[i]][1] / 1e9L - s.state.clk(1));
        const ld zr = z[i].z(0), zd = z[i].z(1);
        VH_EXPECT(close(r(2 * i), zr - range, 2e-6L), "obs-range", "%s: observation %d: residual %.9g, geometry gives %.9Lg", where.c_str(), i, r(2 * i), zr - range);
        const double got = r(2 * i + 1);
        if (!close(got, zd - (base + sag), 1e-9L))
        {
            if (close(got, zd - (base - sag), 1e-9L))
                violation("obs-doppler-earth-rotation-sign", str("%s: observation %d: residual %.9g; the rate of the modelled range gives %.9Lg, with the Earth-rotation term reversed %.9Lg", where.c_str(), i, got, zd - (base + sag), zd - (base - sag)));
            else
                violation("obs-doppler", str("%s: observation %d: residual %.9g, geometry gives %.9Lg", where.c_str(), i, got, zd - (base + sag)));
        }
        outcome(mix(std::llround(r(2 * i)), std::llround(got * 10)));
        if (!jacobian) continue;
        const auto rd = refOf<Du>(x, u);
        for (int k = 0; k < 24; ++k)
        {
            V3<Du> pd, vd;
            const auto rm = moved(rd, k);
            antenna(rm, pd, vd);
            ld dp = 0, dv = 0;  // the line of sight is taken as fixed
            for (int a = 0; a < 3; ++a) { dp -= e[a] * pd[a].d; dv -= e[a] * vd[a].d; }
            dp += (ld)C_LIGHT / 1e9L * rm.clk[sys[i]][0].d; dv += (ld)C_LIGHT / 1e9L * rm.clk[sys[i]][1].d;
            for (int q = 0; q < 2; ++q)
            {
                const ld want = -(q ? dv : dp);
                const double j = k < 6 ? J.dPose(i)(q, k) : k < 12 ? J.dTI2e(i)(q, k - 6) : k < 15 ? J.dPB2g(i)(q, k - 12) : k < 18 ? J.dVel(i)(q, k - 15) : k < 20 ? J.dGpsClk(i)(q, k - 18) : k < 22 ? J.dGalClk(i)(q, k - 20) : J.dGloClk(i)(q, k - 22);
                VH_EXPECT(close(j, want, 1e-8L * (1 + fabsl(want))), "obs-jacobian", "%s: observation %d row %d column %d: %.9g, derivative %.9Lg", where.c_str(), i, q, k, j, want);
            }
            transition(2);
        }
    }
}

static State baseState(int k)
{
    State x;
    x.num_sd = 0;
    x.vel.setZero(); x.acc_bias.setZero(); x.gyro_bias.setZero(); x.p_b2g.setZero();
    x.gps_clk << 1200.5 + k, 33.25; x.gal_clk << -800.25, -21.5 - k; x.glo_clk << 52000.75, 87.125;
    x.acc_bias << 0.1, -0.2, 0.05; x.gyro_bias.setZero();
    return x;
}

int main()
{
    vh::init();
    const auto R = rots(thorough() ? 40 : 8), RE = rots(4);
    std::vector<Vec3> lev = {Vec3::Zero(), Vec3(1, 0, 0), Vec3(0.3, -0.7, 1.1)};
    std::vector<Vec3> vel = {Vec3::Zero(), Vec3(0, 0, 9), Vec3(12.5, -3.25, 0.5)};
    std::vector<Vec3> gyr = {Vec3::Zero(), Vec3(0, 0.8, 0), Vec3(0.3, -0.2, 0.9)};
    std::vector<Vec3> pos = {Vec3::Zero(), Vec3(120, -45, 8), Vec3(-9000, 25000, 700)};
    std::vector<Vec3> ept = {Vec3::Zero(), Vec3(6378137, 0, 0), Vec3(1.8e6, 4.4e6, -4.2e6)};
    uint64_t idx = 0;
    for (size_t a = 0; a < R.size(); ++a)
        for (size_t b = 0; b < RE.size(); ++b)
            for (size_t c = 0; c < pos.size(); ++c)
                for (size_t d = 0; d < ept.size(); ++d)
                    for (int k = 0; k < 27; ++k)
                    {
                        if (!mine(idx++)) continue;
                        const int l = k % 3, v = k / 3 % 3, g = k / 9;
                        State x = baseState(0);
                        x.pose = dq(R[a], pos[c]); x.T_I2e = dq(RE[b], ept[d]);
                        x.p_b2g = lev[l]; x.vel = vel[v];
                        Input u; u.accel = Vec3(0.1, 0.2, 9.8); u.gyro = gyr[g];
                        Vec6 z; z << 0.5, -2, 3.25, 7, -8, 0.125;
                        pointPos(x, u, z, str("point position: attitude %zu, Earth attitude %zu, position %zu, Earth position %zu, lever %d, velocity %d, rate %d", a, b, c, d, l, v, g), thorough() || (a * 7 + b * 3 + k) % 4 == 0);
                        state(mix(mix(a * 64 + b, c * 16 + d), k)); trace();
                        if (l && v && g) nontrivial(mix(mix(a * 64 + b, c * 16 + d), k));
                        // nothing else in the state has a say
                        if (k == 26)
                        {
                            const Vec6 r0 = h<pointPosMeas>(z, x, nullptr, u);
                            State y = x;
                            y.acc_bias *= 9; y.gps_clk *= -3; y.gal_clk *= 2; y.glo_clk *= 5; y.num_sd = 4;
                            for (int i = 0; i < 4; ++i) y.sd[i] = Vec1::Constant(7.0 + i);
                            Input w = u; w.accel *= 3;
                            VH_EXPECT((r0 - h<pointPosMeas>(z, y, nullptr, w)).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() == 0, "point_pos-influence", "attitude %zu", a);
                        }
                    }
    // satellites around a receiver: overhead, near the horizon, all around
    for (int i = 0; i < 30; ++i)
    {
        satellite::SatelliteCache s;
        const double az = 0.9 * i, el = 0.05 + 1.5 * (i % 7) / 6.0;
        s.state.pos = 2.0e7 * Vec3(std::cos(el) * std::cos(az), std::cos(el) * std::sin(az), std::sin(el)) + Vec3(-1.8e6, -4.6e6, 4.0e6);
        s.state.vel = Vec3(2800 * std::sin(az), -2600 * std::cos(az + 0.3), 900 * std::cos(2.0 * i));
        s.state.clk = Vec2(1e-5 * (i - 14), 1e-11 * (7 - i));
        s.sagnac = -30.5 + 2 * i; s.atm.ionospheric_delay_m = 1.5 + 0.25 * i; s.atm.tropospheric_delay_m = 2.25 + 0.5 * i;
        s.cache_rec_pos = Vec3(1, 2, 3);
        g_sats.push_back(s);
    }
    // every list of up to three observations over the three systems, then full ones
    std::vector<std::vector<int>> lists;
    for (int n = 0; n <= 3; ++n) every(3, n, [&](const std::vector<int>& w) { lists.push_back(w); });
    for (int n : {4, 8, 15, 29, 30}) { std::vector<int> l; for (int i = 0; i < n; ++i) l.push_back((i * i + n) % 3); lists.push_back(l); }
    idx = 0;
    for (size_t a = 0; a < R.size(); ++a)
        for (size_t b = 0; b < RE.size(); b += thorough() ? 1 : 3)
            for (size_t d = 0; d < ept.size(); ++d)
                for (int k = 0; k < 27; k += 1)
                {
                    if (!mine(idx++)) continue;
                    State x = baseState(k % 5);
                    x.pose = dq(R[a], pos[(a + k) % 3]); x.T_I2e = dq(RE[b], ept[d]);
                    x.p_b2g = lev[k % 3]; x.vel = vel[k / 3 % 3];
                    x.num_sd = k % 4;
                    for (size_t i = 0; i < x.num_sd; ++i) x.sd[i] = Vec1::Constant(3.0 + i);
                    Input u; u.accel = Vec3(0.1, 0.2, 9.8); u.gyro = gyr[k / 9];
                    const std::string at = str("observations: attitude %zu, Earth attitude %zu, Earth position %zu, motion %d", a, b, d, k);
                    for (size_t li = 0; li < lists.size(); ++li)
                    {
                        if (!thorough() && li > 3 && (li + a + b + k) % 9) continue;
                        std::vector<int> st;
                        for (size_t i = 0; i < lists[li].size(); ++i) st.push_back((i * 7 + li + a) % 30);
                        obs(x, u, lists[li], st, at + str(", list %zu (%s)", li, wstr(lists[li]).c_str()), (li + k) % 2 == 0);
                        state(mix(mix(1000 + a * 64 + b, d * 32 + k), li)); trace();
                        if (lists[li].size() > 1) nontrivial(mix(mix(1000 + a * 64 + b, d * 32 + k), li));
                    }
                }
    // fix and hold: as many as there are single differences, each on its own
    if (first())
        for (int n = 0; n <= 30; ++n)
            for (int only = -1; only < n; ++only)
            {
                ctx("fix and hold of %d, only %d differs", n, only);
                State x = baseState(1);
                x.num_sd = n;
                fixAndHoldMeas::ZType z;
                for (int i = 0; i < n; ++i) { x.sd[i] = Vec1::Constant(10.0 * i + 0.5); z.push_back(Vec1::Constant(10.0 * i + 0.5 + (only < 0 ? 0.25 * i : i == only ? 1.0 : 0.0))); }
                static fixAndHoldMeas::Jac J;
                paint(J);
                const fixAndHoldMeas::Residual r = h<fixAndHoldMeas>(z, x, &J);
                eval(); state(mix(77, n * 64 + only)); trace();
                for (int i = 0; i < n; ++i)
                {
                    const double want = only < 0 ? 0.25 * i : i == only;
                    VH_EXPECT(r(i) == want, "fix_and_hold-residual", "%d of %d, only %d: %g, expected %g", i, n, only, r(i), want);
                }
                for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k)
                    VH_EXPECT(J.dSd_all(n, n)(i, k) == (i == k ? -1.0 : 0.0), "fix_and_hold-jacobian", "%d,%d of %d: %g", i, k, n, J.dSd_all(n, n)(i, k));
            }
    sample("pose x Earth pose x lever x velocity x rate for point_pos; every list of <= 3 systems for obs; all sizes for fix_and_hold");
    return vh::finish();
}
