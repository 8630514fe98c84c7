// D01: the simulated sensors report what the motion implies, when due, and the log's ephemerides are replayed once each.
#include <fcntl.h>
#include <unistd.h>
#include <experimental/filesystem>
#include "vh.h"
#include "common/logging/log_writer.h"
#include "common/satellite/atm_correction.h"
#include "sim/sim.h"
#include "utils/wgs84.h"
#include "fakesat.h"
#include "rots.h"
namespace fs = std::experimental::filesystem;
using namespace mc;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
using Jet = math::TwoJet<double>;
using sim::sensors::GnssSim;
using sim::sensors::ImuSim;

static std::string DIR;
static UTCTime at(int64_t ns) { UTCTime t; t.sec = 1600000000 + ns / 1000000000; t.nsec = ns % 1000000000; if (t.nsec < 0) { t.nsec += 1000000000; --t.sec; } return t; }
static int64_t ns(const UTCTime& t) { return (int64_t)(t.sec - 1600000000) * 1000000000 + t.nsec; }
static bool bits(const Vec3& a, const Vec3& b) { return (a - b).isZero(0); }

// ---- the logs the simulator takes its satellites from
template <class E> static E mkeph(int sys, int num, double m0)
{
    E e(num);
    e.gnssID = sys; e.sat = num;
    e.toe = at(0); e.toc = at(0); e.toes = (uint32_t)at(0).GpsTow();
    e.sqrta = sys == GnssID::GPS ? 5153.7 : 5440.6; e.ecc = 0.01; e.m0 = m0; e.delta_n = 4e-9; e.omega0 = 1.0; e.i0 = 0.96; e.w = 0.5;
    e.omegadot = -8e-9; e.idot = 1e-10; e.af0 = 1e-5; e.af1 = 1e-12; e.af2 = 0; e.cuc = 1e-6; e.cus = 2e-6; e.crc = 200; e.crs = 50; e.cic = 1e-7; e.cis = 2e-7;
    return e;
}
static ephemeris::GlonassEphemeris mkglo(int num)
{
    ephemeris::GlonassEphemeris e(num);
    e.gnssID = GnssID::Glonass; e.sat = num; e.toe = at(0); e.tof = at(0);
    e.pos = Vec3(1.2e7, -1.9e7, 1.17e7); e.vel = Vec3(-600, 1200, 2600); e.acc = Vec3(1e-6, 0, -2e-6); e.taun = 1e-5; e.gamn = 1e-12; e.dtaun = 0; e.slot = 1; e.iode = e.svh = e.sva = e.age = 0;
    return e;
}
struct Rec { int sys; int64_t t; double tag; };   // 0 GPS, 1 Galileo, 2 GLONASS
static std::string writeLog(const std::string& root, const std::vector<Rec>& v)
{
    logging::Logger lg(at(-1000000000), root);
    lg.initStream<ephemeris::GPSEphemeris>(logging::GPS_EPH, {"eph"});
    lg.initStream<ephemeris::GalileoEphemeris>(logging::GAL_EPH, {"eph"});
    lg.initStream<ephemeris::GlonassEphemeris>(logging::GLO_EPH, {"eph"});
    for (auto& r : v)
    {
        if (r.sys == 0) { auto e = mkeph<ephemeris::GPSEphemeris>(GnssID::GPS, 5, 0.3); e.af0 = r.tag; lg.log(logging::GPS_EPH, at(r.t), e); }
        if (r.sys == 1) { auto e = mkeph<ephemeris::GalileoEphemeris>(GnssID::Galileo, 7, 1.3); e.af0 = r.tag; lg.log(logging::GAL_EPH, at(r.t), e); }
        if (r.sys == 2) { auto e = mkglo(9); e.taun = r.tag; lg.log(logging::GLO_EPH, at(r.t), e); }
    }
    const std::string p = root + "/" + lg.logId();
    lg.close(at(100000000000));
    return p;
}
static void wipe(const std::string& d) { std::error_code e; fs::remove_all(d, e); }

static ImuSim::Options quietImu() { ImuSim::Options o; o.accel_noise_stdev = o.accel_walk_stdev = o.gyro_noise_stdev = o.gyro_walk_stdev = 0; return o; }
static GnssSim::Options quietGnss(const std::string& log)
{
    GnssSim::Options o;
    o.ephemeris_log = log; o.pseudorange_stdev_ = o.carrier_phase_stdev_ = o.doppler_stdev_ = o.clock_walk_stdev_ = o.clock_init_stdev_ = 0;
    o.T_e2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(Vec3(0.7, -1.95, 1388)));
    o.p_b2g = Vec3(0.4, -0.2, 0.9);
    return o;
}

// specific force of a body whose velocity is given in its own frame, and its rate
static void imuTruth(const Jet& x, ld f[3], ld w[3])
{
    const auto P = refPose<ld>(x.x);
    const V3<ld> om = rv3<ld>(x.dx.angular()), v = rv3<ld>(x.dx.linear()), a = rv3<ld>(x.d2x.linear());
    const V3<ld> g = P.R.T() * rv3<ld>(GRAVITY), c = om.cross(v);
    for (int i = 0; i < 3; ++i) { f[i] = a[i] + c[i] - g[i]; w[i] = om[i]; }
}
static bool near3(const Vec3& got, const ld want[3], const Vec3& bias, ld tol)
{
    for (int i = 0; i < 3; ++i) if (!(fabsl(got(i) - want[i] - bias(i)) <= tol)) return false;
    return true;
}
static void judgeImu(const meas::ImuSample& s, const UTCTime& t, const Jet& x, const Vec3& ba, const Vec3& bg, const std::string& where)
{
    ld f[3], w[3];
    imuTruth(x, f, w);
    const ld sc = 1e-13L * (1 + 20 + x.d2x.norm() + x.dx.norm() * (1 + x.dx.norm()) + ba.norm() + bg.norm());
    VH_EXPECT(s.t == t, "imu-time", "%s: a sample taken at %lld ns is stamped %lld ns", where.c_str(), (long long)ns(t), (long long)ns(s.t));
    VH_EXPECT(near3(s.accel, f, ba, sc), "accelerometer", "%s: reads (%.9g, %.9g, %.9g), the specific force is (%.9Lg, %.9Lg, %.9Lg) and the bias (%g, %g, %g)", where.c_str(), s.accel(0), s.accel(1), s.accel(2), f[0], f[1], f[2], ba(0), ba(1), ba(2));
    VH_EXPECT(near3(s.gyro, w, bg, sc), "gyroscope", "%s: reads (%.9g, %.9g, %.9g), the rate is (%.9Lg, %.9Lg, %.9Lg) and the bias (%g, %g, %g)", where.c_str(), s.gyro(0), s.gyro(1), s.gyro(2), w[0], w[1], w[2], bg(0), bg(1), bg(2));
    eval();
}
static std::vector<Vec6> twists(int k)
{
    std::vector<Vec6> v{Vec6::Zero()};
    for (int i = 0; i < 6; ++i) { Vec6 z = Vec6::Zero(); z(i) = i < 3 ? 0.7 : 12; v.push_back(z); }
    for (int j = 0; j < k; ++j) { Vec6 z; for (int i = 0; i < 6; ++i) z(i) = std::sin(1.3 * j + 0.9 * i + 0.2) * (i < 3 ? 2 : 25); v.push_back(z); }
    return v;
}

static void imuGrid()
{
    const auto A = rots(thorough() ? 40 : 12);
    const auto V = twists(thorough() ? 12 : 5);
    const std::vector<Vec3> T{Vec3(0, 0, 0), Vec3(1200, -300, 45)}, B{Vec3(0, 0, 0), Vec3(0.3, -0.02, 0.11)};
    uint64_t n = 0;
    for (size_t a = 0; a < A.size(); ++a) for (size_t d = 0; d < V.size(); ++d) for (size_t d2 = 0; d2 < V.size(); ++d2)
    {
        if (!mine(n++)) continue;
        for (size_t t = 0; t < T.size(); ++t) for (size_t b = 0; b < B.size(); ++b)
        {
            Jet x; x.x = DQ(A[a], T[t]); x.dx = V[d]; x.d2x = V[d2];
            ImuSim s(quietImu(), at(0));
            s.accel_bias_ = B[b]; s.gyro_bias_ = B[b].reverse();
            const std::string where = str("attitude %zu, twist %zu, rate of twist %zu, position %zu, bias %zu", a, d, d2, t, b);
            ctxs(where);
            meas::ImuSample m;
            const bool got = s.sample(at(10000000), x, make_out(m));
            VH_EXPECT(got, "imu-due", "%s: nothing reported after 10 ms at 250 Hz", where.c_str());
            if (got) judgeImu(m, at(10000000), x, B[b], B[b].reverse(), where);
            state(mix(hbytes(x.x.data(), 64), mix(d * 100 + d2, b)));
            outcome(mix(std::llround(m.accel(0) * 100), std::llround(m.accel(2) * 100)));
            nontrivial(mix(mix(a, d), d2));
        }
    }
}

// every history of sampling instants, for sensors of every rate and of every mix of noises
static const int64_t STEP[5] = {1000000, 2000000, 4000000, 5000000, 13000000};
static void imuWords(int len)
{
    const double rate[4] = {250, 200, 100, 1000};
    for (int r = 0; r < 4; ++r) for (int noise = 0; noise < 16; ++noise) words(5, (noise == 0 || noise == 5 || noise == 10 || noise == 15) ? len : len - 1, [&](const std::vector<int>& w) {
        ImuSim::Options o = quietImu();
        o.update_rate_hz = rate[r];
        // noise and walk of the accelerometer, then of the gyroscope, of very different sizes
        const double an = noise & 1 ? 5 : 0, aw = noise & 2 ? 300 : 0, gn = noise & 4 ? 0.02 : 0, gw = noise & 8 ? 0.2 : 0;
        o.accel_noise_stdev = an; o.accel_walk_stdev = aw; o.gyro_noise_stdev = gn; o.gyro_walk_stdev = gw;
        ImuSim s(o, at(0));
        const int64_t period = std::llround(1e9 / rate[r]);
        int64_t now = 0, last = 0;
        double most[2] = {0, 0}; int reports = 0;
        Jet x; x.x = DQ(Q(0.5, 0.5, -0.5, 0.5), Vec3(1, 2, 3)); x.dx = Vec6::Constant(0.4); x.d2x = Vec6::Constant(-0.2);
        trace();
        for (size_t i = 0; i < w.size(); ++i)
        {
            now += STEP[w[i]];
            const std::string where = str("rate %g Hz, noise %d, steps %s (ns 1e6*{1,2,4,5,13}), step %zu", rate[r], noise, wstr(w).c_str(), i);
            ctxs(where);
            const Vec3 a0 = s.accel_bias_, g0 = s.gyro_bias_;
            x.dx(3) += 0.1;
            meas::ImuSample m = meas::ImuSample::Zero();
            const bool got = s.sample(at(now), x, make_out(m)), due = now - last >= period;
            transition();
            VH_EXPECT(got == due, "imu-rate", "%s: %lld ns after the last sample one was %s", where.c_str(), (long long)(now - last), got ? "reported" : "not reported");
            const int64_t before = last;
            if (got) last = now;
            const double dt = 1e-9 * (double)(now - before);
            const auto walked = [&](const Vec3& was, const Vec3& is, double sd, const char* what) {
                for (int k = 0; k < 3; ++k) VH_EXPECT(got && sd > 0 ? is(k) != was(k) && std::fabs(is(k) - was(k)) < 9 * sd * std::sqrt(dt) : is(k) == was(k), "imu-bias-walk", "%s: axis %d of the bias of the %s went from %g to %g; it walks by %g, and a sample was %s", where.c_str(), k, what, was(k), is(k), sd, got ? "reported" : "not reported");
            };
            walked(a0, s.accel_bias_, aw, "accelerometer");
            walked(g0, s.gyro_bias_, gw, "gyroscope");
            if (got && an == 0 && gn == 0) judgeImu(m, at(now), x, s.accel_bias_, s.gyro_bias_, where);
            else if (got)
            {
                ld f[3], q[3]; imuTruth(x, f, q);
                VH_EXPECT(m.t == at(now), "imu-time", "%s: stamped %lld ns", where.c_str(), (long long)ns(m.t));
                const auto noisy = [&](ld got1, ld want, double sd, const char* what, int k) {
                    const ld e = fabsl(got1 - want);
                    VH_EXPECT(sd > 0 ? e < 9 * sd && e > 0 : e < 1e-12L * (1 + fabsl(want) + 50), "imu-noise-scale", "%s: axis %d of the %s is off by %Lg, its noise is %g", where.c_str(), k, what, e, sd);
                    if (sd > 0) most[*what == 'g'] = std::max(most[*what == 'g'], (double)(e / sd));
                };
                for (int k = 0; k < 3; ++k) { noisy(m.accel(k), f[k] + (ld)s.accel_bias_(k), an, "accelerometer", k); noisy(m.gyro(k), q[k] + (ld)s.gyro_bias_(k), gn, "gyroscope", k); }
                ++reports;
            }
            state(mix(mix(r * 16 + noise, now), now - last));
        }
        if (reports >= 4) VH_EXPECT((an == 0 || most[0] > 0.05) && (gn == 0 || most[1] > 0.05), "imu-noise-scale", "rate %g Hz, noise %d, steps %s: the noise never exceeds (%g, %g) of its deviation", rate[r], noise, wstr(w).c_str(), most[0], most[1]);
    });
}

// ---- GNSS
static std::vector<FakeSat> sky(int k)
{
    std::vector<FakeSat> v;
    const uint8_t sys[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};
    for (int i = 0; i < k; ++i) v.emplace_back(sys[i % 3], 3 + i, 0.4L + 1.7L * i, 0.9L + 0.1L * i, -1.9L + 0.5L * i, at(0), 1e-5L * (i - 2), 1e-11L * (i + 1), i % 3 == 2 ? 0.187 : 0.1903);
    return v;
}
struct Ant { V3<ld> p, v; };
static Ant antenna(const Jet& x, const DQ& e2n, const Vec3& lever)
{
    const auto b = refPose<ld>(x.x), e = refPose<ld>(e2n);
    const V3<ld> L = rv3<ld>(lever);
    return {e.R * (b.R * L + b.t) + e.t, e.R * (b.R * (rv3<ld>(x.dx.linear()) + rv3<ld>(x.dx.angular()).cross(L)))};
}
static void judgeGnss(const GnssSim& g, const std::vector<FakeSat>& sats, const std::vector<meas::GnssObservation>& obs, const std::vector<int>& offs, const UTCTime& t, const Jet& x, const Vec2& clk, const std::string& where)
{
    const Ant a = antenna(x, g.options_.T_e2n, g.options_.p_b2g);
    const ld rec[3] = {a.p[0], a.p[1], a.p[2]}, C = C_LIGHT, W = OMEGA_EARTH;
    VH_EXPECT(obs.size() == sats.size(), "one-observation-per-satellite", "%s: %zu observations of %zu satellites", where.c_str(), obs.size(), sats.size());
    for (size_t i = 0; i < obs.size() && i < sats.size(); ++i)
    {
        const auto& o = obs[i]; const auto& s = sats[i];
        VH_EXPECT(o.gnss_id == s.gnssId() && o.sat_num == s.sat_num(), "observation-identity", "%s: observation %zu is of system %d satellite %d, not %d %d", where.c_str(), i, o.gnss_id, o.sat_num, s.gnssId(), s.sat_num());
        VH_EXPECT(o.t == t, "observation-time", "%s: observation %zu made at %lld ns is stamped %lld ns", where.c_str(), i, (long long)ns(t), (long long)ns(o.t));
        const auto h = s.hop(s.since(t), rec);
        satellite::SatelliteState st;
        st.t = t - (double)(h.range / C);
        for (int k = 0; k < 3; ++k) { st.pos(k) = h.p[k]; st.vel(k) = h.v[k]; }
        st.clk = Vec2(h.c[0], h.c[1]);
        satellite::AtmosphericCorrection atm;
        satellite::computeAtmCorrection(t, Vec3(rec[0], rec[1], rec[2]), st, make_out(atm));
        const ld range = h.range + atm.ionospheric_delay_m + atm.tropospheric_delay_m + C * (clk(0) - h.c[0]);
        const V3<ld> ps(h.p[0], h.p[1], h.p[2]), vs(h.v[0], h.v[1], h.v[2]);
        const V3<ld> los = ps - a.p, e = los * (1 / los.norm());
        const ld base = (vs - a.v).dot(e) + C * (clk(1) - h.c[1]), rot = W / C * (vs[0] * a.p[1] + ps[0] * a.v[1] - vs[1] * a.p[0] - ps[1] * a.v[0]);
        VH_EXPECT(fabsl(o.pseudorange - range) < 5e-3L, "pseudorange", "%s: satellite %zu: %.6f m, the geometry gives %.6Lf m", where.c_str(), i, o.pseudorange, range);
        if (!(fabsl(o.doppler - (base + rot)) < 5e-3L))
        {
            if (fabsl(o.doppler - (base - rot)) < 5e-3L) violation("sim-doppler-earth-rotation-sign", str("%s: satellite %zu: %.6f m/s; the rate of the range gives %.6Lf, with the Earth-rotation term reversed %.6Lf", where.c_str(), i, o.doppler, base + rot, base - rot));
            else violation("doppler", str("%s: satellite %zu: %.6f m/s, the geometry gives %.6Lf m/s", where.c_str(), i, o.doppler, base + rot));
        }
        const ld n = o.carrier_phase - o.pseudorange / (ld)s.lambda;
        VH_EXPECT(fabsl(n - offs[i]) < 1e-6L, "carrier-phase-offset", "%s: satellite %zu: the phase is %.6Lf cycles from the range, not the %d of this satellite", where.c_str(), i, n, offs[i]);
        eval();
        outcome(mix(std::llround(o.pseudorange), std::llround(o.doppler)));
    }
    const auto T = refPose<ld>(g.T_e2g_), b = refPose<ld>(x.x), e = refPose<ld>(g.options_.T_e2n);
    const auto R = e.R * b.R;
    for (int i = 0; i < 3; ++i)
    {
        VH_EXPECT(fabsl(T.t[i] - a.p[i]) < 1e-5L, "antenna-pose", "%s: the true antenna position is off by %.3Lg m", where.c_str(), T.t[i] - a.p[i]);
        for (int k = 0; k < 3; ++k) VH_EXPECT(fabsl(T.R.m[i][k] - R.m[i][k]) < 1e-12L, "antenna-pose", "%s: the true attitude is off", where.c_str());
    }
}

static void arm(GnssSim& g, const std::vector<FakeSat>& sats, std::vector<int>& offs)
{
    g.satellites_.clear(); g.carrier_phase_offsets_.clear(); offs.clear();
    for (size_t i = 0; i < sats.size(); ++i) { g.satellites_.push_back(&sats[i]); offs.push_back((int)(37 * i) - 90); g.carrier_phase_offsets_.push_back(offs.back()); }
}
static void gnssGrid(const std::string& log)
{
    const auto A = rots(thorough() ? 10 : 3);
    const auto V = twists(thorough() ? 8 : 3);
    const std::vector<Vec3> X{Vec3(0, 0, 0), Vec3(350, -820, 40)}, L{Vec3(0, 0, 0), Vec3(0.4, -0.2, 0.9)};
    const std::vector<Vec3> LLA{Vec3(0.7, -1.95, 1388), Vec3(-0.6, 2.6, 20), Vec3(1.2, 0.3, 300)};
    const std::vector<Vec2> C{Vec2(0, 0), Vec2(3e-6, -2e-9)};
    const auto sats = sky(thorough() ? 9 : 6);
    auto o = quietGnss(log);
    GnssSim g(o, at(0));
    std::vector<int> offs;
    arm(g, sats, offs);
    uint64_t n = 0;
    for (size_t o3 = 0; o3 < LLA.size(); ++o3) for (size_t a = 0; a < A.size(); ++a) for (size_t d = 0; d < V.size(); ++d)
    {
        if (!mine(n++)) continue;
        for (size_t p = 0; p < X.size(); ++p) for (size_t l = 0; l < L.size(); ++l) for (size_t c = 0; c < C.size(); ++c)
        {
            Jet x; x.x = DQ(A[a], X[p]); x.dx = V[d]; x.d2x.setZero();
            g.options_.T_e2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(LLA[o3]));
            g.options_.p_b2g = L[l];
            g.clock_bias_ = C[c]; g.prev_t_ = at(0);
            const int64_t t = 1200000000 + 170000000ll * (int64_t)(a + d);
            const std::string where = str("origin %zu, attitude %zu, twist %zu, position %zu, lever %zu, clock %zu", o3, a, d, p, l, c);
            ctxs(where);
            std::vector<meas::GnssObservation> obs;
            const bool got = g.sample(at(t), x, make_out(obs));
            VH_EXPECT(got, "gnss-due", "%s: nothing reported after a second at 5 Hz", where.c_str());
            if (got) judgeGnss(g, sats, obs, offs, at(t), x, Vec2(C[c](0) + C[c](1) * 1e-9 * (double)t, C[c](1)), where);
            state(mix(hbytes(x.x.data(), 64), mix(d * 100 + o3, l * 2 + c)));
            nontrivial(mix(mix(a, d), mix(o3, l * 2 + c)));
        }
    }
}
static const int64_t GSTEP[4] = {50000000, 100000000, 200000000, 450000000};
static void gnssWords(const std::string& log, int len)
{
    const double rate[3] = {5, 10, 1};
    const auto sats = sky(3);
    auto o = quietGnss(log);
    for (int r = 0; r < 3; ++r)
    {
        o.update_rate_hz_ = rate[r];
        const GnssSim fresh(o, at(0));
        words(4, len, [&](const std::vector<int>& w) {
            GnssSim g = fresh;
            std::vector<int> offs;
            arm(g, sats, offs);
            g.clock_bias_ = Vec2(1e-6, 4e-9);
            const int64_t period = std::llround(1e9 / rate[r]);
            int64_t now = 0, last = 0;
            Jet x; x.x = DQ(Q(0.5, 0.5, -0.5, 0.5), Vec3(1, 2, 3)); x.dx = Vec6::Constant(0.4); x.d2x.setZero();
            trace();
            for (size_t i = 0; i < w.size(); ++i)
            {
                now += GSTEP[w[i]];
                const std::string where = str("rate %g Hz, steps %s (ms {50,100,200,450}), step %zu", rate[r], wstr(w).c_str(), i);
                ctxs(where);
                x.dx(5) -= 0.2; x.x = x.x * DQ::exp(Vec6(x.dx * 0.1));
                std::vector<meas::GnssObservation> obs;
                const bool got = g.sample(at(now), x, make_out(obs)), due = now - last >= period;
                transition();
                VH_EXPECT(got == due, "gnss-rate", "%s: %lld ns after the last epoch one was %s", where.c_str(), (long long)(now - last), got ? "reported" : "not reported");
                if (got) { last = now; judgeGnss(g, sats, obs, offs, at(now), x, Vec2(1e-6 + 4e-18 * (double)now, 4e-9), where); }
                state(mix(mix(r, now), now - last));
            }
        });
    }
}

// every mix of noise levels: each observable deviates by its own deviation, and by nothing else's
static const double LEVEL[4] = {0, 0.01, 1, 100};
static void gnssNoise(const std::string& log, int len)
{
    const auto sats = sky(6);
    auto o = quietGnss(log);
    const GnssSim quiet(o, at(0));
    words(4, 3, [&](const std::vector<int>& lv) {
        every(4, len, [&](const std::vector<int>& w) {
            GnssSim q = quiet, g = quiet;
            g.options_.pseudorange_stdev_ = LEVEL[lv[0]]; g.options_.carrier_phase_stdev_ = LEVEL[lv[1]]; g.options_.doppler_stdev_ = LEVEL[lv[2]];
            std::vector<int> offs;
            arm(g, sats, offs); arm(q, sats, offs);
            q.clock_bias_ = g.clock_bias_ = Vec2(1e-6, 4e-9);
            double most[3] = {0, 0, 0};
            int64_t now = 0; int n = 0;
            Jet x; x.x = DQ(Q(0.5, 0.5, -0.5, 0.5), Vec3(1, 2, 3)); x.dx = Vec6::Constant(0.4); x.d2x.setZero();
            trace();
            const std::string where = str("noise of range %g m, phase %g cycles, Doppler %g m/s, steps %s (ms {50,100,200,450})", LEVEL[lv[0]], LEVEL[lv[1]], LEVEL[lv[2]], wstr(w).c_str());
            ctxs(where);
            for (size_t i = 0; i < w.size(); ++i)
            {
                now += GSTEP[w[i]];
                std::vector<meas::GnssObservation> a, b;
                const bool got = g.sample(at(now), x, make_out(a));
                q.sample(at(now), x, make_out(b));
                transition();
                if (!got || a.size() != b.size()) { VH_EXPECT(!got, "noise-changes-epoch", "%s: %zu observations with noise, %zu without", where.c_str(), a.size(), b.size()); continue; }
                double d[6][3];
                for (size_t k = 0; k < a.size(); ++k)
                {
                    d[k][0] = a[k].pseudorange - b[k].pseudorange; d[k][1] = a[k].carrier_phase - b[k].carrier_phase; d[k][2] = a[k].doppler - b[k].doppler;
                    for (int c = 0; c < 3; ++c)
                    {
                        const double s = LEVEL[lv[c]];
                        VH_EXPECT(s == 0 ? std::fabs(d[k][c]) < 1e-6 : std::fabs(d[k][c]) < 9 * s, "noise-scale", "%s: observable %d (range, phase, Doppler) of satellite %zu deviates by %g", where.c_str(), c, k, d[k][c]);
                        most[c] = std::max(most[c], std::fabs(d[k][c]));
                    }
                    ++n;
                }
                for (int c = 0; c < 3; ++c) if (LEVEL[lv[c]] > 0) VH_EXPECT(std::fabs(d[0][c] - d[1][c]) + std::fabs(d[0][c] - d[2][c]) + std::fabs(d[0][c] - d[5][c]) > 1e-6 * LEVEL[lv[c]], "noise-shared", "%s: observable %d of all satellites deviates alike", where.c_str(), c);
                for (int c = 0; c < 3; ++c) for (int e = 0; e < c; ++e) if (LEVEL[lv[c]] > 0 && LEVEL[lv[e]] > 0)
                {
                    double gap = 0;
                    for (int k = 0; k < 6; ++k) gap += std::fabs(d[k][c] / LEVEL[lv[c]] - d[k][e] / LEVEL[lv[e]]);
                    VH_EXPECT(gap > 1e-3, "noise-shared", "%s: observables %d and %d share their noise", where.c_str(), e, c);
                }
                state(mix(hstr(wstr(lv)), now));
            }
            for (int c = 0; c < 3; ++c) if (n >= 12 && LEVEL[lv[c]] > 0) VH_EXPECT(most[c] > 0.05 * LEVEL[lv[c]], "noise-scale", "%s: observable %d never deviates by more than %g", where.c_str(), c, most[c]);
            nontrivial(hstr(where));
        });
    });
}
static void clockWalk(const std::string& log, int len)
{
    const double WALK[3] = {0, 1e-9, 1e-6}, INIT[3] = {0, 1e-10, 1e-4};
    const auto sats = sky(3);
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) words(4, len, [&](const std::vector<int>& w) {
        auto o = quietGnss(log);
        o.clock_walk_stdev_ = WALK[a]; o.clock_init_stdev_ = INIT[b];
        static GnssSim* made[3][3];
        if (!made[a][b]) made[a][b] = new GnssSim(o, at(0));
        GnssSim g = *made[a][b];
        const std::string where = str("clock walk %g, initial clock %g, steps %s (ms {50,100,200,450})", WALK[a], INIT[b], wstr(w).c_str());
        ctxs(where);
        VH_EXPECT(INIT[b] == 0 ? g.clock_bias_(0) == 0 : g.clock_bias_(0) != 0 && std::fabs(g.clock_bias_(0)) < 9 * INIT[b], "clock-start", "%s: the clock starts at %g", where.c_str(), g.clock_bias_(0));
        VH_EXPECT(WALK[a] == 0 ? g.clock_bias_(1) == 0 : g.clock_bias_(1) != 0 && std::fabs(g.clock_bias_(1)) < 9 * WALK[a], "clock-start", "%s: the rate of the clock starts at %g", where.c_str(), g.clock_bias_(1));
        std::vector<int> offs;
        arm(g, sats, offs);
        int64_t now = 0, last = 0;
        Jet x; x.x = DQ(Q(0.5, 0.5, -0.5, 0.5), Vec3(1, 2, 3)); x.dx = Vec6::Constant(0.4); x.d2x.setZero();
        trace();
        for (size_t i = 0; i < w.size(); ++i)
        {
            now += GSTEP[w[i]];
            const Vec2 was = g.clock_bias_;
            std::vector<meas::GnssObservation> obs;
            const bool got = g.sample(at(now), x, make_out(obs));
            const Vec2 is = g.clock_bias_;
            const double dt = 1e-9 * (double)(now - last);
            transition();
            if (!got) { VH_EXPECT(was == is, "clock-walk", "%s, step %zu: the clock moved though nothing was reported", where.c_str(), i); continue; }
            last = now;
            VH_EXPECT(WALK[a] == 0 ? is(1) == was(1) : is(1) != was(1) && std::fabs(is(1) - was(1)) < 9 * WALK[a] * std::sqrt(dt), "clock-walk", "%s, step %zu: the rate of the clock went from %g to %g", where.c_str(), i, was(1), is(1));
            VH_EXPECT(std::fabs(is(0) - was(0) - 0.5 * (is(1) + was(1)) * dt) < 1e-12 * (std::fabs(is(0)) + std::fabs(is(1)) + 1e-9), "clock-integration", "%s, step %zu: over %g s at rates %g to %g the clock went from %.12g to %.12g", where.c_str(), i, dt, was(1), is(1), was(0), is(0));
            judgeGnss(g, sats, obs, offs, at(now), x, is, where);
            state(mix(mix(a * 3 + b, now), hbytes(is.data(), 16)));
        }
    });
}

// ---- replay of ephemerides: every log of up to N of them, against every schedule of steps
static const int64_t DUE[4] = {-300000000, 0, 150000000, 400000000}, ESTEP[3] = {50000000, 150000000, 300000000};
static void replay(int nlog, int nstep)
{
    uint64_t k = 0;
    for (int len = 1; len <= nlog; ++len) every(12, len, [&](const std::vector<int>& w) {
        std::vector<Rec> v;
        for (size_t i = 0; i < w.size(); ++i) { const Rec r{w[i] % 3, DUE[w[i] / 3], 1e-6 * (i + 1)}; if (i && r.t < v.back().t) return; v.push_back(r); }
        if (!mine(k++)) return;
        const std::string root = DIR + "/e";
        const std::string log = writeLog(root, v);
        auto o = quietGnss(log);
        const GnssSim fresh(o, at(0));
        every(3, nstep, [&](const std::vector<int>& s) {
            GnssSim g = fresh;
            size_t next[3] = {0, 0, 0};
            std::vector<Rec> q[3];
            for (auto& r : v) q[r.sys].push_back(r);
            int64_t now = 0;
            trace();
            for (size_t i = 0; i < s.size(); ++i)
            {
                now += ESTEP[s[i]];
                const std::string where = str("log %s (system %%3, due at {-300,0,150,400} ms), steps %s (ms {50,150,300}), step %zu", wstr(w).c_str(), wstr(s).c_str(), i);
                ctxs(where);
                ephemeris::GPSEphemeris a; ephemeris::GalileoEphemeris b; ephemeris::GlonassEphemeris c;
                a.af0 = b.af0 = c.taun = 0;
                const bool got[3] = {g.sampleGpsEph(at(now), make_out(a)), g.sampleGalEph(at(now), make_out(b)), g.sampleGloEph(at(now), make_out(c))};
                const double tag[3] = {a.af0, b.af0, c.taun};
                for (int y = 0; y < 3; ++y)
                {
                    const bool due = next[y] < q[y].size() && q[y][next[y]].t <= now;
                    VH_EXPECT(got[y] == due, "ephemeris-replay", "%s: system %d: an ephemeris was %s at %lld ms", where.c_str(), y, got[y] ? "replayed though none was due" : "due but not replayed", (long long)(now / 1000000));
                    if (got[y] && due) { VH_EXPECT(tag[y] == q[y][next[y]].tag, "ephemeris-replay-order", "%s: system %d: ephemeris %g replayed in place of %g", where.c_str(), y, tag[y], q[y][next[y]].tag); ++next[y]; }
                    transition();
                    outcome(mix(y * 2 + got[y], next[y]));
                }
                state(mix(hstr(wstr(w)), mix(now, next[0] * 9 + next[1] * 3 + next[2])));
            }
        });
        nontrivial(hstr(wstr(w)));
        wipe(root);
    });
}

// ---- the whole simulator: what its callbacks get is what its sensors saw, and a run depends on nothing but its options
static void whole(int len)
{
    const std::string root = DIR + "/s";
    std::vector<Rec> v{{0, -1, 1e-6}, {1, 0, 2e-6}, {0, 5000000, 3e-6}, {2, 30000000, 4e-6}, {1, 40000000, 5e-6}};
    const std::string log = writeLog(root, v);
    static const int64_t S[3] = {2000000, 10000000, 200000000};
    std::vector<std::vector<Vec3>> WP{{Vec3(100, 100, 0), Vec3(-50, 20, 0)}, {Vec3(20, -1, 0)}};
    for (size_t wp = 0; wp < WP.size(); ++wp) words(3, len, [&](const std::vector<int>& w) {
        sim::Sim::Options o;
        o.input_noise = 0;
        o.wp_options.waypoints = WP[wp];
        o.car_options.t0 = at(0);
        o.car_options.heading_controller_gains.kp = o.car_options.velocity_controller_gains.kp = 2;
        o.gnss_options = quietGnss(log);
        o.imu_options = quietImu();
        o.imu_options.update_rate_hz = 100;
        trace();
        std::vector<uint64_t> run[2];
        for (int fill = 0; fill < 2; ++fill)
        {
            void* mem = aligned_alloc(64, (sizeof(sim::Sim) + 63) / 64 * 64);
            memset(mem, fill ? 0x11 : 0, sizeof(sim::Sim));
            sim::Sim* s = new (mem) sim::Sim(o);
            // the same car, driven step by step by the same controllers
            sim::dynamics::SimCar::WaypointFollower pilot(o.wp_options);
            sim::dynamics::SimCar twin(o.car_options);
            int64_t now = 0, gl = 0, il = 0;
            std::string where;
            int got[5] = {0};   // imu, gnss, and ephemerides by system
            double tag[3] = {0};
            size_t next[3] = {0};
            std::vector<Rec> q[3];
            for (auto& r : v) q[r.sys].push_back(r);
            s->registerImuCB([&](meas::ImuSample m) { ++got[0]; judgeImu(m, s->t(), s->x(), Vec3::Zero(), Vec3::Zero(), where); });
            s->registerGnssCB([&](std::vector<meas::GnssObservation> ob) {
                ++got[1];
                VH_EXPECT(ob.size() == 3, "one-observation-per-satellite", "%s: %zu observations of 3 satellites", where.c_str(), ob.size());
                for (auto& z : ob) VH_EXPECT(z.t == s->t(), "observation-time", "%s: stamped %lld ns at %lld ns", where.c_str(), (long long)ns(z.t), (long long)ns(s->t()));
            });
            s->registerGPSEphCb([&](const ephemeris::GPSEphemeris& e) { ++got[2]; tag[0] = e.af0; });
            s->registerGalEphCb([&](const ephemeris::GalileoEphemeris& e) { ++got[3]; tag[1] = e.af0; });
            s->registerGloEphCb([&](const ephemeris::GlonassEphemeris& e) { ++got[4]; tag[2] = e.taun; });
            for (size_t i = 0; i < w.size(); ++i)
            {
                where = str("waypoints %zu, steps %s (ms {2,10,200}), step %zu", wp, wstr(w).c_str(), i);
                ctxs(where);
                const Jet before = s->x();
                memset(got, 0, sizeof got);
                s->step(1e-9 * (double)S[w[i]]);
                now += S[w[i]];
                transition();
                VH_EXPECT(ns(s->t()) == now, "clock", "%s: the simulation is at %lld ns, not %lld", where.c_str(), (long long)ns(s->t()), (long long)now);
                const bool iDue = now - il >= 10000000, gDue = now - gl >= 200000000;
                VH_EXPECT(got[0] == (int)iDue, "imu-rate", "%s: %d IMU samples, %d due", where.c_str(), got[0], (int)iDue);
                VH_EXPECT(got[1] == (int)gDue, "gnss-rate", "%s: %d GNSS epochs, %d due", where.c_str(), got[1], (int)gDue);
                if (iDue) il = now;
                if (gDue) gl = now;
                for (int y = 0; y < 3; ++y)
                {
                    const bool due = next[y] < q[y].size() && q[y][next[y]].t <= now;
                    VH_EXPECT(got[2 + y] == (int)due, "ephemeris-replay", "%s: system %d: %d ephemerides replayed, %d due", where.c_str(), y, got[2 + y], (int)due);
                    if (due && got[2 + y]) { VH_EXPECT(tag[y] == q[y][next[y]].tag, "ephemeris-replay-order", "%s: system %d: ephemeris %g in place of %g", where.c_str(), y, tag[y], q[y][next[y]].tag); }
                    if (due) ++next[y];
                }
                // over one step the pose moves by the twist: displacement within what the accelerations of the step allow
                const double dt = 1e-9 * (double)S[w[i]];
                const Vec6 moved = DQ(before.x.inverse() * s->x().x).log();
                const double room = (before.d2x.norm() + s->x().d2x.norm()) * dt * dt + 1e-9;
                VH_EXPECT((moved - before.dx * dt).norm() <= room && (s->x().dx - before.dx - s->x().d2x * dt).norm() <= 1e-12 * (1 + s->x().dx.norm()), "motion", "%s: the state does not follow from its own rates", where.c_str());
                {
                    const UTCTime t = twin.t() + dt;
                    const Vec2 vw = pilot.follow(twin.x.x), u = twin.controller(t, vw);
                    twin.step(t, u);
                    VH_EXPECT((twin.x.dx - s->x().dx).norm() <= 1e-9 * (1 + twin.x.dx.norm()) && (twin.x.x.translation() - s->x().x.translation()).norm() <= 1e-9 * (1 + twin.x.x.translation().norm()), "controllers-run-every-step", "%s: the simulated car is not where its controllers take it", where.c_str());
                }
                run[fill].push_back(hbytes(s->x().x.data(), 64, hbytes(s->x().dx.data(), 48)));
            }
            state(run[fill].back());
            outcome(run[fill].back());
            s->~Sim();
            free(mem);
        }
        VH_EXPECT(run[0] == run[1], "run-determined-by-options", "waypoints %zu, steps %s: two runs with the same options differ", wp, wstr(w).c_str());
    });
    wipe(root);
}

int main()
{
    init();
    fflush(stdout); dup2(open("/dev/null", O_WRONLY), 1);
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/d01";
    fs::create_directories(DIR);
    imuGrid();
    imuWords(thorough() ? 8 : 6);
    const std::string log = writeLog(DIR + "/g", {{0, 0, 1e-6}, {1, 0, 2e-6}, {2, 0, 3e-6}});
    gnssGrid(log);
    gnssWords(log, thorough() ? 8 : 6);
    gnssNoise(log, thorough() ? 6 : 4);
    clockWalk(log, thorough() ? 7 : 5);
    replay(thorough() ? 3 : 2, thorough() ? 5 : 4);
    whole(thorough() ? 8 : 6);
    return finish();
}
