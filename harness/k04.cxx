// K04: the estimator's log of residuals. Real estimator, real generated filter, real logger and reader; the process and
// measurement models are stand-ins whose residuals depend on state, input, satellite and measurement.
#include "vh.h"
#include <experimental/filesystem>
#include <memory>
#include "common/logging/log_reader.h"
#include "core/ekf/rtk_ekf_estimator.h"
using namespace mc;
using namespace mc::ekf;
using namespace vh;
namespace fs = std::experimental::filesystem;

namespace mc { namespace ekf {
ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
{
    dxdx->setZero(); dxdu->setZero();
    dxdx->dPose_dVel.bottomRows<3>().setIdentity();
    dxdx->dVel_dAccBias = -Mat3::Identity();
    dxdu->dPose_dGyro.topRows<3>().setIdentity(); dxdu->dVel_dAccel.setIdentity();
    ErrorState d = ErrorState::Zero();
    d.pose.head<3>() = u.gyro - x.gyro_bias;
    d.pose.tail<3>() = x.vel;
    d.vel = u.accel - x.acc_bias - 0.3 * x.vel.norm() * x.vel;
    d.gps_clk << x.gps_clk(1), u.accel(0);
    return d;
}
ErrorState errorStateDynamics(const ErrorState&, const State&, const Input&, const Input&) { return ErrorState::Zero(); }
template <>
pointPosMeas::Residual h<pointPosMeas>(const pointPosMeas::ZType& z, const State& x, pointPosMeas::Jac* jac, const Input& u)
{
    jac->setZero();
    jac->dVel.bottomRows<3>() = -Mat3::Identity();
    Vec6 r = z;
    r.head<3>() -= x.vel * 0.5 + x.p_b2g + 0.1 * u.gyro;
    r.tail<3>() -= x.vel + 0.2 * x.acc_bias + 0.1 * u.accel;
    return r;
}
template <>
obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z, const State& x, obsMeas::Jac* jac, const Input& u)
{
    jac->setZero();
    obsMeas::Residual r = obsMeas::Residual::Zero();
    const Vec3 p = x.T_I2e.transformp(x.pose.transforma(x.p_b2g));
    for (size_t i = 0; i < z.size(); ++i)
    {
        const auto& s = z[i].sat;
        r.segment<2>(2 * i) = z[i].z - Vec2((s.state.pos - p).norm() + s.sagnac + 7 * x.vel(0) + z[i].gnss_id, s.state.vel(1) + x.vel(1) + u.accel(2) - s.atm.tropospheric_delay_m);
    }
    return r;
}
template <>
fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z, const State& x, fixAndHoldMeas::Jac* jac)
{
    jac->setZero();
    const int n = x.num_sd;
    jac->dSd_all(n, n).diagonal().setConstant(-1.0);
    fixAndHoldMeas::Residual r = fixAndHoldMeas::Residual::Zero();
    for (int i = 0; i < n; ++i) r[i] = (z[i] - x.sd[i])[0] * (1 + 0.1 * x.vel(1)) + i;
    return r;
}
} }

enum { IMU, OBS, POS, FIX };
static const char* KN[] = {"imu", "obs", "pos", "fix"};
struct M { int kind; int64_t us; int size; };   // size of a bundle of observations
static UTCTime tim(int64_t us) { return UTCTime(1600000000 + us / 1000000, (us % 1000000) * 1000); }
static const int NSAT = 5;
static const int SYS[NSAT] = {GnssID::GPS, GnssID::Galileo, GnssID::GPS, GnssID::Galileo, GnssID::GPS}, NUM[NSAT] = {5, 5, 31, 24, 12};
static ephemeris::GPSEphemeris gps_eph[NSAT]; static ephemeris::GalileoEphemeris gal_eph[NSAT];
template <class E> static E mkeph(int sys, int num, double m0)
{
    E e(num);
    e.gnssID = sys; e.sat = num;
    e.toe = tim(0); e.toc = tim(0); e.toes = (uint32_t)tim(0).GpsTow();
    e.sqrta = sys == GnssID::GPS ? 5153.7 : 5440.6; e.ecc = 0.01; e.m0 = m0; e.delta_n = 4e-9; e.omega0 = 1.0; e.i0 = 0.96; e.w = 0.5;
    e.omegadot = -8e-9; e.idot = 1e-10; e.af0 = 1e-5; e.af1 = 1e-12; e.af2 = 0; e.cuc = 1e-6; e.cus = 2e-6; e.crc = 200; e.crs = 50; e.cic = 1e-7; e.cis = 2e-7;
    return e;
}
static int SD;
static Input imu_z(const M& m) { Input u; const double k = 1 + m.us / 1e5; u.accel = Vec3(0.3 + 0.17 * k, -0.2 * k, 9.7 + 0.05 * k); u.gyro = Vec3(0.02 * k, 0.1, -0.03 * k); return u; }
static Vec6 pos_z(const M& m) { Vec6 z; for (int i = 0; i < 6; ++i) z(i) = 0.7e-5 * m.us + 0.31 * i - 1; return z; }
static std::vector<Vec1> fix_z(const M& m) { std::vector<Vec1> v; for (int i = 0; i < SD; ++i) v.push_back(Vec1::Constant(0.4e-5 * m.us - 0.3 * i)); return v; }
static std::vector<meas::GnssObservation> obs_z(const M& m)
{
    std::vector<meas::GnssObservation> v;
    for (int i = 0; i < m.size; ++i)
    {
        const int s = (i * 2 + m.us / 100000) % NSAT;
        meas::GnssObservation o; o.setZero(); o.t = tim(m.us); o.gnss_id = SYS[s]; o.sat_num = NUM[s];
        o.pseudorange = 2e7 + m.us + 1000 * i; o.doppler = 100 + i + 1e-5 * m.us;
        v.push_back(o);
    }
    return v;
}
static pointPosMeas::Covariance Rp; static obsMeas::Covariance Ro; static fixAndHoldMeas::Covariance Rf; static InputCovariance Qu; static ProcessCovariance Qx;
static State x0; static Covariance P0;

static bool add_real(RtkEkfEstimator& e, const M& m)
{
    const UTCTime t = tim(m.us);
    switch (m.kind)
    {
    case IMU: { ImuMeas z; z.z = imu_z(m); return e.addMeasurement(t, z).ok(); }
    case POS: { pointPosMeas z; z.z = pos_z(m); return e.addMeasurement(t, z).ok(); }
    case FIX: { fixAndHoldMeas z; z.z = fix_z(m); return e.addMeasurement(t, z).ok(); }
    default: return e.addMeasurement(t, obs_z(m)).ok();
    }
}
static void setup(RtkEkfEstimator& e, logging::Logger* log)
{
    e.init(tim(0), x0, P0, Rp, Ro, Rf, Qu, Qx, log);
    for (int i = 0; i < NSAT; ++i) if (SYS[i] == GnssID::GPS) e.ephCb(gps_eph[i]); else e.ephCb(gal_eph[i]);
}
// one line of the log
struct Line { int kind; int64_t us; int sat; std::vector<double> res, z; bool operator==(const Line& o) const { return kind == o.kind && us == o.us && sat == o.sat && z == o.z; } };
static Line line(int kind, int64_t us, int sat, const double* r, const double* z, int n) { return {kind, us, sat, std::vector<double>(r, r + n), std::vector<double>(z, z + n)}; }
static std::string lstr(const Line& l) { return str("%s at %ld us, satellite %d, residual %.9g, measured %.9g", KN[l.kind], (long)l.us, l.sat, l.res.empty() ? 0.0 : l.res[0], l.z.empty() ? 0.0 : l.z[0]); }

// what each measurement, applied in order of time, is worth
static std::vector<Line> want(std::vector<M> ms)
{
    std::stable_sort(ms.begin(), ms.end(), [](const M& a, const M& b) { return a.us != b.us ? a.us < b.us : a.kind < b.kind; });
    std::vector<Line> out;
    auto s = std::make_unique<Snapshot>();
    s->x = x0; s->x.t = tim(0); s->cov = P0; s->u.accel = -GRAVITY; s->u.gyro.setZero();
    for (auto& m : ms)
    {
        const UTCTime t = tim(m.us);
        if ((t - s->x.t).toSec() > TIME_QUANTIZATION / 2) { auto n = std::make_unique<Snapshot>(); const Input u = m.kind == IMU ? imu_z(m) : s->u; predict(*s, t, u, Qx, Qu, make_out(*n)); s = std::move(n); }
        if (m.kind == POS) { const Vec6 z = pos_z(m); const auto r = update<pointPosMeas>(make_out(*s), z, Rp, s->u); if (r.ok()) out.push_back(line(POS, m.us, 0, r.res().data(), z.data(), 6)); }
        if (m.kind == FIX)
        {
            const auto z = fix_z(m);
            const auto r = update<fixAndHoldMeas>(make_out(*s), z, Rf);
            if (r.ok()) out.push_back(line(FIX, m.us, 0, r.res().data(), z[0].data(), z.size()));
        }
        if (m.kind == OBS)
        {
            const auto o = obs_z(m);
            std::vector<satellite::SatelliteCache> c(o.size());
            obsMeas::ZType z;
            const Vec3 p = s->x.T_I2e.transformp(s->x.pose.transforma(s->x.p_b2g));
            for (size_t i = 0; i < o.size(); ++i)
            {
                int k = 0;
                while (SYS[k] != o[i].gnss_id || NUM[k] != o[i].sat_num) ++k;
                satellite::Satellite<ephemeris::GPSEphemeris> g(GnssID::GPS, NUM[k]); satellite::Satellite<ephemeris::GalileoEphemeris> a(GnssID::Galileo, NUM[k]);
                if (SYS[k] == GnssID::GPS) { g.addEph(gps_eph[k]); c[i].update(o[i].t, p, g); } else { a.addEph(gal_eph[k]); c[i].update(o[i].t, p, a); }
                z.push_back({Vec2(o[i].pseudorange, o[i].doppler), c[i], o[i].gnss_id});
            }
            const auto r = update<obsMeas>(make_out(*s), z, Ro, s->u);
            if (r.ok()) for (size_t i = 0; i < o.size(); ++i) out.push_back(line(OBS, m.us, o[i].sat_num, r.res().data() + 2 * i, z[i].z.data(), 2));
        }
    }
    return out;
}
static int64_t us_of(const UTCTime& t) { return (t.sec - 1600000000) * 1000000 + t.nsec / 1000; }
static std::string DIR;

static void run(const std::vector<M>& ms, const std::string& where)
{
    ctxs(where);
    auto quiet = std::make_unique<RtkEkfEstimator>(), e = std::make_unique<RtkEkfEstimator>();
    fs::remove_all(DIR + "/log");
    fs::create_directories(DIR + "/log");
    std::string id;
    {
        logging::Logger log(tim(0), DIR + "/log");
        id = log.logId();
        setup(*e, &log); setup(*quiet, nullptr);
        for (auto& m : ms)
        {
            const bool a = add_real(*e, m), b = add_real(*quiet, m);
            transition(2);
            VH_EXPECT(a && b, "a measurement is taken", "%s: %d with a log, %d without", where.c_str(), a, b);
        }
        VH_EXPECT(e->t() == quiet->t() && e->x().vel == quiet->x().vel && e->x().pose.arr_ == quiet->x().pose.arr_ && e->cov().vel_vel == quiet->cov().vel_vel, "logging changes nothing", "%s: speed %.12g with a log, %.12g without", where.c_str(), e->x().vel.norm(), quiet->x().vel.norm());
        log.close(tim(3000000));
    }
    std::vector<Line> got;
    const std::string dir = fs::exists(DIR + "/log/" + id) ? DIR + "/log/" + id : DIR + "/log";
    auto check_hat = [&](const Line& l, const std::vector<double>& hat) {
        for (size_t i = 0; i < l.z.size(); ++i)
            VH_EXPECT(std::fabs(l.z[i] - hat[i] - l.res[i]) <= 1e-12 * (1 + std::fabs(l.z[i]) + std::fabs(hat[i])), "measured, predicted and residual fit together", "%s: %s, element %zu: predicted %.12g", where.c_str(), lstr(l).c_str(), i, hat[i]);
    };
    {
        logging::StreamReader r(dir + "/POINT_POS_RESIDUAL.log");
        while (!r.done()) { const int64_t us = us_of(r.nextStamp()); pointPosMeas::Residual a; Vec6 z, h; r.get(a, z, h); got.push_back(line(POS, us, 0, a.data(), z.data(), 6)); check_hat(got.back(), std::vector<double>(h.data(), h.data() + 6)); }
    }
    {
        logging::StreamReader r(dir + "/FIX_AND_HOLD_RESIDUAL.log");
        while (!r.done())
        {
            const int64_t us = us_of(r.nextStamp());
            fixAndHoldMeas::Residual a, z, h;
            r.get(a, z, h);
            int n = z.size();
            while (n && std::isnan(z(n - 1)) && std::isnan(h(n - 1))) --n;
            got.push_back(line(FIX, us, 0, a.data(), z.data(), n));
            check_hat(got.back(), std::vector<double>(h.data(), h.data() + n));
        }
    }
    {
        logging::StreamReader r(dir + "/GPS_OBS_RESIDUAL.log");
        while (!r.done()) { const int64_t us = us_of(r.nextStamp()); int s; Vec2 a, z, h; r.get(s, a, z, h); got.push_back(line(OBS, us, s, a.data(), z.data(), 2)); check_hat(got.back(), std::vector<double>(h.data(), h.data() + 2)); }
    }
    eval(got.size() + 1);
    const auto ref = want(ms);
    auto less = [](const M& a, const M& b) { return a.us != b.us ? a.us < b.us : a.kind < b.kind; };
    const bool ordered = std::is_sorted(ms.begin(), ms.end(), less);
    // per kind, since each has a stream of its own
    for (int k : {POS, FIX, OBS})
    {
        std::vector<Line> g, w;
        for (auto& l : got) if (l.kind == k) g.push_back(l);
        for (auto& l : ref) if (l.kind == k) w.push_back(l);
        if (ordered)
        {
            VH_EXPECT(g.size() == w.size(), "every measurement is logged once", "%s: %zu records of %s for %zu", where.c_str(), g.size(), KN[k], w.size());
            for (size_t i = 0; i < std::min(g.size(), w.size()); ++i)
            {
                VH_EXPECT(g[i] == w[i], "a record names its measurement", "%s: %s instead of %s", where.c_str(), lstr(g[i]).c_str(), lstr(w[i]).c_str());
                VH_EXPECT(g[i].res == w[i].res, "a record holds the residual of its measurement", "%s: %s instead of %s", where.c_str(), lstr(g[i]).c_str(), lstr(w[i]).c_str());
            }
        }
        else
        {
            // a measurement that had to be applied again is logged again: the last record of each holds
            for (auto& l : g) { bool known = false; for (auto& x : w) known = known || x == l; VH_EXPECT(known, "a record names its measurement", "%s: %s was never given", where.c_str(), lstr(l).c_str()); }
            for (auto& x : w)
            {
                const Line* last = nullptr;
                for (auto& l : g) if (x == l) last = &l;
                if (vh::expect(last != nullptr, "every measurement is logged", where + ": nothing of " + lstr(x))) VH_EXPECT(last->res == x.res, "the last record of a measurement holds its residual", "%s: %s instead of %s", where.c_str(), lstr(*last).c_str(), lstr(x).c_str());
            }
        }
        for (auto& l : g) { uint64_t hh = mix(k, l.us * 100 + l.sat); for (double d : l.res) hh = hbytes(&d, 8, hh); nontrivial(hh); outcome(mix(k, std::llround(l.res.empty() ? 0 : l.res[0]))); }
    }
    state(hstr(where));
    trace();
}

int main()
{
    if (!freopen("/dev/null", "w", stdout)) return 2;
    init();
    char tmpl[] = "/tmp/k04_XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    DIR = tmpl;
    for (int i = 0; i < NSAT; ++i) { gps_eph[i] = mkeph<ephemeris::GPSEphemeris>(GnssID::GPS, NUM[i], 0.3 + i); gal_eph[i] = mkeph<ephemeris::GalileoEphemeris>(GnssID::Galileo, NUM[i], 1.1 + i); }
    Rp = Vec6::Constant(0.3); Ro = Vec2::Ones(); Rf = Vec1::Constant(0.2);
    Qu = InputCovariance::Zero(); Qu.accel.setConstant(0.01); Qu.gyro.setConstant(0.02); Qx = ProcessCovariance::Identity();
    P0 = Covariance::Identity();
    for (int sd : {0, 1, 3, 30})
    {
        SD = sd;
        x0 = State::Identity(); x0.num_sd = sd;
        for (int i = 0; i < sd; ++i) x0.sd[i].setConstant(0.2 - 0.05 * i);
        x0.T_I2e = math::DQuat<double>(math::Quat<double>::Identity(), Vec3(-1798904, -4532227, 4099781));
        x0.t = tim(0);
        std::vector<M> a;   // the second time is within the time quantum of the first
        for (int64_t us : {100000, 100020, 200000}) { for (int k : {IMU, POS, FIX}) a.push_back({k, us, 0}); a.push_back({OBS, us, us == 100000 ? 1 : us == 100020 ? 2 : 3}); }
        a.push_back({OBS, 400000, 30}); a.push_back({OBS, 400000, 0});
        for (int len = 1; len <= (thorough() ? 4 : 3); ++len)
            words(a.size(), len, [&](const std::vector<int>& w) {
                std::vector<M> ms;
                for (int i : w) { for (auto& m : ms) if (m.kind == a[i].kind && m.us == a[i].us) return; ms.push_back(a[i]); }
                std::string s;
                for (auto& m : ms) s += str(" %s@%gms", KN[m.kind], m.us / 1000.0) + (m.kind == OBS ? str("x%d", m.size) : "");
                run(ms, str("%d ambiguities, arrivals:", sd) + s);
            });
    }
    fs::remove_all(DIR);
    sample("3 ambiguities, arrivals: pos@200ms obs@100msx1 fix@200ms");
    return finish();
}
