// P01: a log and a configuration in, calls to the filter and a log of estimates out: what the post-processor does between them.
// The tool's own main() runs on real logs in a scratch directory; the filter is the real one, watched through a subclass.
#include "vh.h"
#include <fstream>
#include <setjmp.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
#include "core/ekf/rtk_ekf_estimator.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/two_jet.h"
#include "utils/wgs84.h"
using namespace mc;
using namespace vh;
namespace fs = std::experimental::filesystem;

static jmp_buf jb;
static bool armed = false;
extern "C" void exit(int c) { if (armed) { armed = false; longjmp(jb, 1); } _exit(c); }

// ---- what the tool asks of the filter
struct Call { int kind; UTCTime t; Vec3 a, g; std::vector<meas::GnssObservation> obs; bool ok; };
enum { IMU, OBS, OTHER };
struct Est { UTCTime t; math::DQuat<double> pose; Vec3 vel, omg, acc, pe; Vec2 c0, c1, c2; };
struct Seen
{
    int inits = 0;
    UTCTime t0; ekf::State x0; ekf::Input u0; Eigen::MatrixXd P0, Rp, Ro, Rf, Qu, Qx; bool log = false;
    std::vector<Call> calls;
    std::vector<std::string> eph;   // in the order of arrival
    std::vector<Est> states;        // the filter after every call
    int eph_after_init = 0;
};
static Seen seen;
static std::string name(const ephemeris::GPSEphemeris& e) { return str("gps %d toe %lld m0 %a", e.sat, (long long)e.toe.sec, e.m0); }
static std::string name(const ephemeris::GalileoEphemeris& e) { return str("gal %d toe %lld m0 %a", e.sat, (long long)e.toe.sec, e.m0); }
static std::string name(const ephemeris::GlonassEphemeris& e) { return str("glo %d toe %lld x %a", e.sat, (long long)e.toe.sec, e.pos[0]); }
namespace mc { namespace ekf {
struct Watched : RtkEkfEstimator
{
    void look()
    {
        if (!states_.empty() && seen.inits) seen.states.push_back({t(), x().pose, x().vel, u().gyro, u().accel, p_ecef(), x().gps_clk, x().gal_clk, x().glo_clk});
    }
    template <class P, class A, class B, class C, class D, class Q>
    void init(const UTCTime& t0, const State& x0, const P& P0, const A& a, const B& b, const C& c, const D& d, const Q& q, logging::Logger* log = nullptr)
    {
        ++seen.inits;
        RtkEkfEstimator::init(t0, x0, P0, a, b, c, d, q, log);
        seen.t0 = t0; seen.x0 = x0; seen.log = log;
        seen.P0 = cov().dense(0);
        auto dense = [](const auto& m) { Eigen::MatrixXd d = m; return Eigen::MatrixXd(d.cols() == 1 ? d : Eigen::MatrixXd(d.diagonal())); };
        seen.Rp = dense(point_pos_cov_); seen.Ro = dense(obs_cov_); seen.Rf = dense(fix_and_hold_cov_);
        Eigen::VectorXd qu(6); qu << imu_cov_.accel, imu_cov_.gyro; seen.Qu = qu;
        Eigen::VectorXd qx(31);
        qx << process_cov_.pose, process_cov_.vel, process_cov_.accBias, process_cov_.gyroBias, process_cov_.gpsClk, process_cov_.galClk, process_cov_.gloClk, process_cov_.pB2g, process_cov_.TI2e, process_cov_.sd;
        seen.Qx = qx;
        look();
    }
    template <class E> void ephCb(const E& e) { seen.eph.push_back(name(e)); if (seen.inits) ++seen.eph_after_init; RtkEkfEstimator::ephCb(e); }
    template <class T> Error addMeasurement(const UTCTime& t, const T& z)
    {
        Call c; c.t = t; c.kind = OTHER;
        if (seen.calls.empty()) { seen.u0 = u(); look(); }
        if constexpr (std::is_same_v<T, ImuMeas>) { c.kind = IMU; c.a = z.z.accel; c.g = z.z.gyro; }
        if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>) { c.kind = OBS; c.obs = z; }
        seen.calls.push_back(c);
        Error e = RtkEkfEstimator::addMeasurement(t, z);
        seen.calls.back().ok = e.ok();
        look();
        return e;
    }
};
} }
// the tool's main() stays a main() to the compiler, under another name to the linker; the harness's takes its place
int main(int argc, char** argv) asm("post_process_main");
extern "C" int post_process_main(int argc, char** argv);
static int run_all();
extern "C" int start_here(int, char**) asm("main");
extern "C" int start_here(int, char**) { return run_all(); }
#define RtkEkfEstimator Watched
#include "tools/post_process.cxx"
#undef RtkEkfEstimator

static std::string DIR;
static UTCTime T(int64_t us) { UTCTime t(1600000000, 250000000); t += UTCTime(us / 1000000, us % 1000000 * 1000); return t; }
template <class E> static E mkeph(int sys, int num, int64_t toe_off)
{
    E e(num);
    e.gnssID = sys; e.sat = num;
    e.toe = UTCTime((int64_t)1600000000 + toe_off, (int64_t)0); e.toc = e.toe; e.toes = (uint32_t)e.toe.GpsTow();
    e.sqrta = sys == GnssID::GPS ? 5153.7 : 5440.6; e.ecc = 0.01; e.m0 = -1.1 + 0.3 * num; e.delta_n = 4e-9; e.omega0 = 1.0; e.i0 = 0.96; e.w = 0.5;
    e.omegadot = -8e-9; e.idot = 1e-10; e.af0 = 1e-5; e.af1 = 1e-12; e.af2 = 0; e.cuc = 1e-6; e.cus = 2e-6; e.crc = 200; e.crs = 50; e.cic = 1e-7; e.cis = 2e-7;
    return e;
}
static ephemeris::GlonassEphemeris mkglo(int num, int64_t toe_off)
{
    ephemeris::GlonassEphemeris e(num);
    e.gnssID = GnssID::Glonass; e.sat = num;
    e.toe = UTCTime((int64_t)1600000000 + toe_off, (int64_t)0); e.tof = e.toe;
    e.pos[0] = -1.0e7 + num; e.pos[1] = -1.5e7; e.pos[2] = 1.8e7; e.vel[0] = 1000; e.vel[1] = 2000; e.vel[2] = 2200; e.acc[0] = e.acc[1] = e.acc[2] = 0; e.taun = 1e-5; e.gamn = 0;
    return e;
}

// ---- a run
struct Eph { int sys, num; int64_t toe_off; int64_t us; };       // logged at T(us)
struct Rec { int kind; int64_t us; int64_t obs_us; int sys, num; int id; };
struct Cfg
{
    bool sim = true;
    Vec3 tr = Vec3(0, 0, 0), vel = Vec3(0, 0, 0), arm = Vec3(0.3, -0.2, 0.1), lla = Vec3(40.246184, -111.647769, 1387.997511);
    double hdg = 0; Eigen::Vector4d q = Eigen::Vector4d(1, 0, 0, 0);
    int seed = 0;
    std::string file;  // instead of all of the above
};
struct Sim { math::TwoJet<double> jet; math::DQuat<double> Te2n; };
static Sim simstate()
{
    Sim s;
    s.jet.x = math::DQuat<double>(math::Quat<double>::from_euler(0.02, -0.03, 0.7), Vec3(3, -4, 0.5));
    s.jet.dx << 0.01, 0.02, 0.3, 5, 0.1, -0.2;
    s.jet.d2x << 0, 0, 0, 0.4, -0.3, 0.2;
    s.Te2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(Vec3(0.7, -1.9, 1400)));
    return s;
}
static double sd(int seed, int k) { return 0.01 * (1 + k) + 0.001 * seed; }
static std::string vec(const Eigen::VectorXd& v) { std::string s = "["; for (int i = 0; i < v.size(); ++i) s += str("%s%.17g", i ? ", " : "", v(i)); return s + "]"; }
static std::string stdevs(const char* key, int seed)
{
    int k = 0;
    auto n = [&](int m) { Eigen::VectorXd v(m); for (int i = 0; i < m; ++i) v(i) = sd(seed, k++); return vec(v); };
    std::string s = std::string(key) + ":\n";
    for (auto& p : std::vector<std::pair<const char*, int>>{{"rotation", 3}, {"translation", 3}, {"vel", 3}, {"acc_bias", 3}, {"gyro_bias", 3}, {"gps_clk", 2}, {"gal_clk", 2}, {"glo_clk", 2}, {"p_b2g", 3}, {"T_I2e", 6}, {"sd", 1}})
        s += str("  %s: ", p.first) + n(p.second) + "\n";
    return s;
}
static Eigen::VectorXd want_var(int seed, int from, int n) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = sd(seed, from + i) * sd(seed, from + i); return v; }
static std::string write_cfg(const Cfg& c)
{
    if (c.file.size()) return c.file;
    std::string f = DIR + "/cfg.yaml";
    std::ofstream o(f);
    o << "use_init_sim_state: " << (c.sim ? "true" : "false") << "\ntranslation0: " << vec(c.tr) << "\nrotation0: " << vec(c.q) << "\nvel0: " << vec(c.vel) << "\np_b2g0: " << vec(c.arm)
      << "\nlla0_deg: " << vec(c.lla) << "\nheading0_deg: " << str("%.17g", c.hdg) << "\n"
      << stdevs("P0_stdev", c.seed) << stdevs("process_stdev", c.seed + 3);
    Eigen::VectorXd p(6); for (int i = 0; i < 6; ++i) p(i) = sd(c.seed + 5, i);
    o << "point_pos_stdev: " << vec(p) << "\nobs_stdev: [0.7, 0.9]\nfix_and_hold_stdev: 0.05\nimu_stdev:\n  gyro: [0.11, 0.12, 0.13]\n  accel: [0.21, 0.22, 0.23]\n";
    return f;
}
static meas::ImuSample imu(int id) { meas::ImuSample s; s.setZero(); s.accel = Vec3(0.1 + 0.01 * id, -0.05 * id, -9.8 + 0.003 * id); s.gyro = Vec3(0.01 * id, 0.02, -0.013 * id); return s; }
static meas::GnssObservation obs(const Rec& r)
{
    meas::GnssObservation o; o.setZero(); o.t = T(r.obs_us); o.gnss_id = r.sys; o.sat_num = r.num; o.pseudorange = 2.1e7 + 13 * r.id; o.doppler = -100 - r.id; o.carrier_phase = 1e8 + r.id; o.freq = 1.5e9;
    return o;
}
static bool same(const meas::GnssObservation& a, const meas::GnssObservation& b)
{
    return a.t == b.t && a.gnss_id == b.gnss_id && a.sat_num == b.sat_num && a.pseudorange == b.pseudorange && a.doppler == b.doppler && a.carrier_phase == b.carrier_phase && a.freq == b.freq;
}
static int bytes(const YAML::Node& n)
{
    if (n["type"] && n["type"].IsScalar())
    {
        static const int S[] = {8, 4, 8, 4, 2, 1, 8, 4, 2, 1};
        int b = S[n["type"].as<int>()];
        if (n["rows"]) b *= n["rows"].as<int>();
        if (n["cols"]) b *= n["cols"].as<int>();
        return b;
    }
    int b = 0;
    for (auto f : n) b += bytes(f.second);
    return b;
}
static std::string one_log(const std::string& dir)
{
    std::string r;
    for (auto& e : fs::directory_iterator(dir)) r = e.path().string();
    return r;
}
static double dist(const Est& a, const Est& b)
{
    auto d = [](const auto& x, const auto& y) { double m = 0; for (int i = 0; i < x.size(); ++i) { double e = fabs(x.data()[i] - y.data()[i]); m = worse(m, e); } return m; };
    auto dq = [](const math::DQuat<double>& x, const math::DQuat<double>& y) { double m = 0; for (int i = 0; i < 8; ++i) { double e = fabs(x.data()[i] - y.data()[i]); m = worse(m, e); } return m; };
    return worst<double>({dq(a.pose, b.pose), d(a.vel, b.vel), d(a.omg, b.omg), d(a.acc, b.acc), d(a.pe, b.pe) * 1e-6, d(a.c0, b.c0), d(a.c1, b.c1), d(a.c2, b.c2)});
}

static void run(const std::vector<Eph>& ephs, const std::vector<Rec>& recs, const Cfg& c, const std::string& what, bool loose = false)
{
    ctx("%s", what.c_str());
    fs::remove_all(DIR + "/logs");
    fs::remove_all(DIR + "/in");
    fs::create_directories(DIR + "/cwd");
    const Sim s = simstate();
    const int64_t sim_us = 10000;
    std::string elog;
    {
        logging::Logger l(T(0), DIR + "/in/eph");
        l.initStream<ephemeris::GPSEphemeris>(logging::GPS_EPH, {"eph"});
        l.initStream<ephemeris::GalileoEphemeris>(logging::GAL_EPH, {"eph"});
        l.initStream<ephemeris::GlonassEphemeris>(logging::GLO_EPH, {"eph"});
        for (auto& e : ephs)
        {
            if (e.sys == GnssID::GPS) l.log(logging::GPS_EPH, T(e.us), mkeph<ephemeris::GPSEphemeris>(e.sys, e.num, e.toe_off));
            if (e.sys == GnssID::Galileo) l.log(logging::GAL_EPH, T(e.us), mkeph<ephemeris::GalileoEphemeris>(e.sys, e.num, e.toe_off));
            if (e.sys == GnssID::Glonass) l.log(logging::GLO_EPH, T(e.us), mkglo(e.num, e.toe_off));
        }
        l.close(T(10000000));
    }
    elog = one_log(DIR + "/in/eph");
    {
        logging::Logger l(T(0), DIR + "/in/data");
        l.initStream<math::TwoJet<double>, math::DQuat<double>, Vec2>(logging::TRUTH_POSE, {"pose", "T_e2g", "clk"});
        l.initStream<meas::ImuSample>(logging::IMU_SAMPLE, {"imu"});
        l.initStream<meas::GnssObservation>(logging::GNSS_OBS, {"obs"});
        l.amends(elog);
        for (int k = 0; k < 3; ++k)
        {
            auto j = s.jet; j.x = k ? math::DQuat<double>::identity() : j.x;
            // the pose of the antenna: that of the body, at the end of the lever arm
            const Vec3 arm = c.file.size() ? Vec3(0, 0, 0) : c.arm;
            const math::DQuat<double> Te2g(s.Te2n.rotation() * j.x.rotation(), s.Te2n.transforma(j.x.transforma(arm)));
            l.log(logging::TRUTH_POSE, T(sim_us * (k + 1)), j, Te2g, Vec2(1, 2));
        }
        for (auto& r : recs)
        {
            if (r.kind == IMU) { auto i = imu(r.id); i.t = T(r.us); l.log(logging::IMU_SAMPLE, T(r.us), i); }
            else l.log(logging::GNSS_OBS, T(r.us), obs(r));
        }
        l.close(T(10000000));
    }
    seen = Seen();
    std::string cf = write_cfg(c), lf = DIR + "/in/data";
    std::string cwd = DIR + "/cwd";
    if (chdir(cwd.c_str())) return;
    const char* argv[] = {"post_process", "--config_file", cf.c_str(), "--log", lf.c_str()};
    bool died = false;
    armed = true;
    if (setjmp(jb) == 0) { try { post_process_main(5, (char**)argv); } catch (const std::exception& e) { died = true; } } else died = true;
    armed = false;
    transition();
    eval();
    if (!expect(!died, "the post-processor gets through the log", what)) return;

    // ephemerides: those at most two hours old at the time they were logged, before the filter starts
    std::vector<std::string> we;
    std::set<std::pair<int, int>> known;
    std::vector<Eph> es = ephs;
    for (auto& e : es)
    {
        double dt = (T(e.us) - UTCTime((int64_t)1600000000 + e.toe_off, (int64_t)0)).toSec();
        if (fabs(dt) > 7200) continue;
        known.insert({e.sys, e.num});
        if (e.sys == GnssID::GPS) we.push_back(name(mkeph<ephemeris::GPSEphemeris>(e.sys, e.num, e.toe_off)));
        if (e.sys == GnssID::Galileo) we.push_back(name(mkeph<ephemeris::GalileoEphemeris>(e.sys, e.num, e.toe_off)));
        if (e.sys == GnssID::Glonass) we.push_back(name(mkglo(e.num, e.toe_off)));
    }
    auto ge = seen.eph;
    std::sort(we.begin(), we.end()); std::sort(ge.begin(), ge.end());
    expect(ge == we && !seen.eph_after_init, "every usable ephemeris is loaded once, before the filter starts", str("%zu loaded, %zu usable", ge.size(), we.size()));

    // where the filter starts
    expect(seen.inits == 1 && seen.log, "the filter is started once, with a log", str("%d", seen.inits));
    const UTCTime t0 = c.sim && c.file.empty() ? T(sim_us) : c.file.empty() ? T(0) : T(sim_us);
    expect(seen.t0 == t0 && seen.x0.t == t0, "the filter starts at the time of its state", str("%lld.%09lld", (long long)seen.x0.t.sec, (long long)seen.x0.t.nsec));
    auto near = [&](const auto& a, const auto& b, double tol) { const Eigen::MatrixXd x_ = a, y_ = b; return x_.rows() == y_.rows() && (x_ - y_).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= tol; };
    const auto& x = seen.x0;
    const bool simulated = c.sim || c.file.size();
    // the point of the local frame at (0,0,0) and ones along its axes, in the earth-fixed frame
    Vec3 o, ex, ey, ez;
    if (simulated) { auto g = [&](Vec3 p) { return s.Te2n.transforma(p); }; o = g(Vec3(0, 0, 0)); ex = g(Vec3(1000, 0, 0)); ey = g(Vec3(0, 1000, 0)); ez = g(Vec3(0, 0, 1000)); }
    else
    {
        const double la = c.lla(0) * M_PI / 180, lo = c.lla(1) * M_PI / 180, h = c.hdg * M_PI / 180;
        const double a = 6378137, f = 1 / 298.257223563, e2 = f * (2 - f), v = a / sqrt(1 - e2 * sin(la) * sin(la));
        o = Vec3((v + c.lla(2)) * cos(la) * cos(lo), (v + c.lla(2)) * cos(la) * sin(lo), (v * (1 - e2) + c.lla(2)) * sin(la));
        Vec3 N(-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)), E(-sin(lo), cos(lo), 0), D = N.cross(E);
        // the local frame sees north at the angle `heading` about its down axis
        ex = o + 1000 * (cos(h) * N - sin(h) * E); ey = o + 1000 * (sin(h) * N + cos(h) * E); ez = o + 1000 * D;
    }
    auto at = [&](Vec3 p) { return Vec3(x.T_I2e.transformp(p)); };
    expect(near(at(Vec3(0, 0, 0)), o, 1e-4), "the local frame begins at the stated place", str("%g m away", (at(Vec3(0, 0, 0)) - o).norm()));
    expect(near(at(Vec3(1000, 0, 0)), ex, 1e-3) && near(at(Vec3(0, 1000, 0)), ey, 1e-3) && near(at(Vec3(0, 0, 1000)), ez, 1e-3), "the local frame is oriented as stated",
           str("%g %g %g m", (at(Vec3(1000, 0, 0)) - ex).norm(), (at(Vec3(0, 1000, 0)) - ey).norm(), (at(Vec3(0, 0, 1000)) - ez).norm()));
    math::DQuat<double> wp = simulated ? s.jet.x : math::DQuat<double>(math::Quat<double>(c.q(0), c.q(1), c.q(2), c.q(3)), c.tr);
    Vec3 wv = simulated ? Vec3(s.jet.dx.tail<3>()) : c.vel;
    double dp = 0; for (int i = 0; i < 8; ++i) dp = worse(dp, fabs(wp.data()[i] - x.pose.data()[i]));
    expect(dp <= 1e-12, "initial pose", str("%g", dp));
    expect(near(x.vel, wv, 1e-12), "initial velocity");
    expect(near(x.p_b2g, c.file.size() ? Vec3(0, 0, 0) : c.arm, 1e-12), "initial lever arm");
    expect(x.acc_bias.norm() + x.gyro_bias.norm() + x.gps_clk.norm() + x.gal_clk.norm() + x.glo_clk.norm() == 0, "initial biases and clocks are zero");
    if (seen.calls.size())
        expect(simulated ? near(seen.u0.gyro, s.jet.dx.head<3>(), 1e-12) : near(seen.u0.gyro, Vec3(0, 0, 0), 0) && near(seen.u0.accel, Vec3(0, 0, -9.80665), 1e-3), "initial input",
               str("accel %g %g %g gyro %g %g %g", seen.u0.accel(0), seen.u0.accel(1), seen.u0.accel(2), seen.u0.gyro(0), seen.u0.gyro(1), seen.u0.gyro(2)));
    if (c.file.empty())
    {
        auto diag = [&](const Eigen::MatrixXd& m, const Eigen::VectorXd& w) { return m.rows() >= w.size() && near(m.diagonal().head(w.size()), w, 1e-15); };
        // pose vel acc_bias gyro_bias gps gal glo | p_b2g T_I2e, in the order of the error state without single differences
        expect(diag(seen.P0, want_var(c.seed, 0, 30)) && Eigen::MatrixXd(seen.P0 - Eigen::MatrixXd(seen.P0.diagonal().asDiagonal())).norm() == 0, "initial covariance is the configured one", vec(seen.P0.diagonal()));
        expect(near(seen.Qx, want_var(c.seed + 3, 0, 31), 1e-15), "process noise is the configured one", vec(seen.Qx));
        expect(near(seen.Rp, want_var(c.seed + 5, 0, 6), 1e-15), "position noise is the configured one");
        expect(near(seen.Ro, Vec2(0.49, 0.81), 1e-15), "observation noise is the configured one");
        expect(fabs(seen.Rf(0, 0) - 0.0025) < 1e-15, "fix-and-hold noise is the configured one");
        Eigen::VectorXd qu(6); qu << 0.21 * 0.21, 0.22 * 0.22, 0.23 * 0.23, 0.11 * 0.11, 0.12 * 0.12, 0.13 * 0.13;
        expect(near(seen.Qu, qu, 1e-15), "IMU noise is the configured one");
    }

    // epochs logged within ten milliseconds of each other: nothing is mixed, invented or given twice, samples all arrive
    if (loose)
    {
        std::set<int> used;
        uint64_t oh = 0;
        size_t imus = 0, nimu = 0;
        for (auto& r : recs) nimu += r.kind == IMU;
        for (auto& g : seen.calls)
        {
            oh = mix(oh, g.kind * 64 + g.obs.size());
            if (g.kind == IMU) { ++imus; continue; }
            expect(g.obs.size() > 0, "an epoch handed over has observations");
            for (auto& o : g.obs)
            {
                expect(o.t == g.t, "observations of different epochs are never handed over as one");
                bool f = false;
                for (size_t k = 0; k < recs.size(); ++k) if (recs[k].kind == OBS && same(o, obs(recs[k]))) f = used.insert(k).second || f;
                expect(f, "observations handed over are logged ones, each at most once");
            }
        }
        expect(imus == nimu, "one call per IMU sample and per epoch", str("%zu samples of %zu", imus, nimu));
        outcome(oh);
        nontrivial(hstr(what));
        return;
    }

    // what the filter is given
    struct Item { int64_t us; int kind; const Rec* r; std::vector<const Rec*> ep; };
    std::vector<Item> want;
    for (auto& r : recs)
    {
        if (r.kind == IMU) { want.push_back({r.us, IMU, &r, {}}); continue; }
        bool joined = false;
        for (auto& w : want) if (w.kind == OBS && w.ep[0]->obs_us == r.obs_us) { w.ep.push_back(&r); w.us = r.us; joined = true; }
        if (!joined) want.push_back({r.us, OBS, nullptr, {&r}});
    }
    std::stable_sort(want.begin(), want.end(), [](const Item& a, const Item& b) { return a.us < b.us; });
    // known finding: the tool stops when the log is 45 s past the start of the filter. Up to there everything is due.
    const size_t all_of_it = want.size();
    const std::vector<Item> full = want;
    const int64_t stop_us = (seen.x0.t == T(sim_us) ? sim_us : 0) + 45000000;
    while (want.size() && want.back().us > stop_us) want.pop_back();
    if (seen.calls.size() < all_of_it && want.size() < all_of_it)
    {
        violation("what was logged more than 45 s after the start is not processed", str("%zu calls, %zu expected @ %s", seen.calls.size(), all_of_it, g().sh->ctx));
        while (seen.calls.size() > want.size()) { expect(false, "samples and epochs arrive in order"); seen.calls.pop_back(); }
    }
    else if (seen.calls.size() == all_of_it) want = full;
    expect(seen.calls.size() == want.size(), "one call per IMU sample and per epoch", str("%zu calls, %zu expected", seen.calls.size(), want.size()));
    uint64_t oh = 0;
    for (size_t i = 0; i < seen.calls.size() && i < want.size(); ++i)
    {
        auto& g = seen.calls[i]; auto& w = want[i];
        oh = mix(oh, g.kind * 64 + g.obs.size() * 2 + g.ok);
        if (!expect(g.kind == w.kind, "samples and epochs arrive in order", str("call %zu", i))) break;
        if (g.kind == IMU) { expect(g.t == T(w.r->us) && g.a == imu(w.r->id).accel && g.g == imu(w.r->id).gyro, "an IMU sample arrives as logged", str("call %zu", i)); continue; }
        expect(g.t == T(w.ep[0]->obs_us), "an epoch arrives with its time of measurement", str("call %zu", i));
        bool eq = g.obs.size() == w.ep.size(), all = true;
        for (size_t k = 0; eq && k < w.ep.size(); ++k) eq = same(g.obs[k], obs(*w.ep[k]));
        expect(eq, "all observations of an epoch arrive together, as logged", str("call %zu: %zu of %zu", i, g.obs.size(), w.ep.size()));
        for (auto e : w.ep) all = all && known.count({e->sys, e->num});
        if (T(w.ep[0]->obs_us) >= t0) expect(g.ok == all, "an epoch is accepted exactly when all its satellites are known", str("call %zu", i));
    }
    outcome(oh);
    nontrivial(hstr(what));

    // the log of estimates: readable as its header says, and nothing but states the filter was in
    std::string out = one_log(DIR + "/logs/post_process");
    if (!expect(out.size(), "a log is written")) return;
    YAML::Node y = YAML::LoadFile(out + "/ESTIMATE.yml"), m = YAML::LoadFile(out + "/manifest.yml");
    const size_t rec = bytes(y["format"]), sz = fs::file_size(out + "/ESTIMATE.log");
    expect(sz == rec * y["num_records"].as<size_t>(), "estimate records have the size their header states", str("%zu bytes, %zu records of %zu", sz, y["num_records"].as<size_t>(), rec));
    expect(m["amends"] && m["amends"].as<std::string>() == one_log(lf), "the estimates amend the log they were made from");
    std::vector<Est> got;
    std::ifstream f(out + "/ESTIMATE.log", std::ios::binary);
    // fields by their place in the header
    std::map<std::string, int> off;
    int p = 0;
    for (auto n : y["format"]) { off[n.first.as<std::string>()] = p; p += bytes(n.second); }
    bool fields = true;
    for (auto n : {"t", "pose", "vel", "omg", "acc", "p_ecef", "gps_clk", "gal_clk", "glo_clk"}) fields = fields && off.count(n);
    if (!expect(fields, "the estimate log names its fields")) return;
    std::vector<char> b(rec);
    while (f.read(b.data(), rec))
    {
        Est e;
        auto rd = [&](const char* n, double* d, int k) { memcpy(d, &b[off[n]], k * 8); };
        memcpy(&e.t.sec, &b[off["t"]], 8); memcpy(&e.t.nsec, &b[off["t"] + 8], 8);
        rd("pose", e.pose.data(), 8); rd("vel", e.vel.data(), 3); rd("omg", e.omg.data(), 3); rd("acc", e.acc.data(), 3); rd("p_ecef", e.pe.data(), 3);
        rd("gps_clk", e.c0.data(), 2); rd("gal_clk", e.c1.data(), 2); rd("glo_clk", e.c2.data(), 2);
        got.push_back(e);
    }
    // a pose is stored as rotation and translation
    auto norm = [](Est e) { return e; };
    size_t k = 0;
    bool sub = true;
    for (auto& e : got)
    {
        while (k < seen.states.size())
        {
            Est s2 = seen.states[k];
            Est g2 = norm(e);
            // stored pose: rotation (4), then translation (3) or the dual part (4), as the header has it
            auto pn = y["format"]["pose"];
            if (bytes(pn) == 56)
            {
                double t7[7]; memcpy(t7, e.pose.data(), 56);
                double dd = 0;
                auto tr = s2.pose.translation();
                for (int i = 0; i < 4; ++i) dd = worse(dd, fabs(t7[i] - s2.pose.data()[i]));
                for (int i = 0; i < 3; ++i) dd = worse(dd, fabs(t7[4 + i] - tr(i)));
                g2.pose = s2.pose;
                if (!(dd <= 1e-9)) { ++k; continue; }
            }
            if (g2.t == s2.t && dist(g2, s2) < 1e-9) break;
            ++k;
        }
        if (k == seen.states.size()) { sub = false; break; }
    }
    expect(sub, "every estimate logged is a state the filter was in, in order", str("%zu estimates, %zu states", got.size(), seen.states.size()));
    if (seen.states.size() > 1 && recs.size() && recs.back().us >= 200000 && want.size() == all_of_it)
        expect(got.size() && got.back().t == seen.states[seen.states.size() - 2].t, "the last estimate precedes the last sample", str("%zu estimates", got.size()));
}

static std::vector<Eph> usual() { return {{GnssID::GPS, 5, 0, 0}, {GnssID::GPS, 6, 600, 0}, {GnssID::Galileo, 5, -600, 0}, {GnssID::Glonass, 7, 0, 0}}; }
static const char* SYM[] = {"-", "imu", "gps", "gps+gal+glo", "imu+gps", "late", "spread", "unknown", "two imu+late"};
static std::vector<Rec> history(const std::vector<int>& w)
{
    std::vector<Rec> r;
    int id = 1;
    for (size_t i = 0; i < w.size(); ++i)
    {
        const int64_t t = 20000 * (i + 1);
        auto im = [&](int64_t d) { r.push_back({IMU, t + d, 0, 0, 0, id++}); };
        auto ob = [&](int64_t d, int64_t at, int sys, int num) { r.push_back({OBS, t + d, t + at, sys, num, id++}); };
        switch (w[i])
        {
        case 1: im(0); break;
        case 2: ob(5000, 5000, GnssID::GPS, 5); break;
        case 3: ob(5000, 5000, GnssID::GPS, 6); ob(5000, 5000, GnssID::Galileo, 5); ob(5000, 5000, GnssID::Glonass, 7); break;
        case 4: im(0); ob(5000, 5000, GnssID::GPS, 5); ob(5000, 5000, GnssID::GPS, 6); break;
        case 5: ob(8000, 5000, GnssID::GPS, 5); ob(8000, 5000, GnssID::Galileo, 5); break;
        case 6: ob(4000, 3000, GnssID::GPS, 5); im(5000); ob(6500, 3000, GnssID::GPS, 6); break;
        case 7: ob(5000, 5000, GnssID::GPS, 5); ob(5000, 5000, GnssID::GPS, 9); break;
        case 8: im(0); im(6000); ob(8000, 4000, GnssID::Galileo, 5); break;
        }
    }
    r.push_back({IMU, 300000, 0, 0, 0, id++});
    return r;
}
static std::string nm(const std::vector<int>& w) { std::string s; for (int x : w) s += std::string(s.size() ? " | " : "") + SYM[x]; return s; }

static int run_all()
{
    init();
    if (!freopen("/dev/null", "w", stdout) || (!getenv("DBG") && !freopen("/dev/null", "w", stderr))) return 3;
    char tmp[] = "/tmp/p01XXXXXX";
    DIR = mkdtemp(tmp);
    const int D = thorough() ? 5 : 4;
    Cfg def;
    for (int n = 0; n <= D; ++n)
        words(9, n, [&](const std::vector<int>& w) { state(hstr(nm(w))); run(usual(), history(w), def, nm(w)); });
    // configurations
    std::vector<Cfg> cs;
    for (int sim = 0; sim < 2; ++sim)
        for (double h : {0.0, 90.0, -30.0, 179.0})
            for (int k = 0; k < 5; ++k)
            {
                Cfg c; c.sim = sim; c.hdg = h; c.seed = k;
                if (k >= 1) c.tr = Vec3(10, -20, 3);
                if (k >= 2) { auto q = math::Quat<double>::from_euler(0.1, -0.2, 2.0); c.q = Eigen::Vector4d(q.w(), q.x(), q.y(), q.z()); }
                if (k >= 3) c.vel = Vec3(1, -2, 0.5);
                if (k >= 4) c.lla = Vec3(-33.5, 151.2, 20);
                cs.push_back(c);
            }
    std::vector<std::vector<int>> hs = {{1, 3, 1}, {3, 3}, {4, 5, 6, 1}, {}};
    { Cfg c; c.file = REPO_CFG; for (auto& h : hs) if (first()) run(usual(), history(h), c, "shipped configuration: " + nm(h)); }
    for (size_t i = 0; i < cs.size(); ++i)
        for (auto& h : hs)
            if (mine(mix(i, h.size()))) run(usual(), history(h), cs[i], str("configuration %zu (simulated %d, heading %g, variant %d): ", i, cs[i].sim, cs[i].hdg, cs[i].seed) + nm(h));
    // ages of ephemerides: sets of two out of system x age, logged at two times
    std::vector<Eph> pool;
    for (int sys : {GnssID::GPS, GnssID::Galileo, GnssID::Glonass})
        for (int64_t age : {0, -7199, 7199, -7202, 7202, 20000})
            pool.push_back({sys, 5, age, 500000});
    for (size_t i = 0; i < pool.size(); ++i)
        for (size_t j = 0; j < pool.size(); ++j)
        {
            if (!mine(i * 31 + j)) continue;
            auto b = pool[j]; b.num = 6;
            std::vector<Rec> r = {{IMU, 20000, 0, 0, 0, 1}, {OBS, 45000, 45000, pool[i].sys, 5, 2}, {OBS, 85000, 85000, b.sys, 6, 3}, {OBS, 125000, 125000, pool[i].sys, 5, 4}, {OBS, 125000, 125000, b.sys, 6, 5}, {IMU, 300000, 0, 0, 0, 6}};
            run({pool[i], b}, r, def, str("ephemerides: system %d age %lld, system %d age %lld", pool[i].sys, (long long)pool[i].toe_off, b.sys, (long long)b.toe_off));
        }
    // crowded logs: records 3, 7 or 20 ms apart, each a sample or an observation of one of three epochs
    for (int n = 2; n <= (thorough() ? 5 : 4); ++n)
        words(4, n, [&](const std::vector<int>& w) {
            for (int gap : {3000, 7000, 20000})
            {
                std::vector<Rec> r;
                for (int i = 0; i < n; ++i)
                {
                    const int64_t t = 30000 + gap * i;
                    if (w[i] == 0) r.push_back({IMU, t, 0, 0, 0, i + 1});
                    else r.push_back({OBS, t, 20000 + 4000 * w[i], i % 2 ? GnssID::Galileo : GnssID::GPS, 5, i + 1});
                }
                r.push_back({IMU, 300000, 0, 0, 0, 50});
                std::string nn;
                for (int x : w) nn += str("%d ", x);
                run(usual(), r, def, str("crowded %d us: ", gap) + nn, true);
            }
        });
    // long logs: every choice of ticks on both sides of every full second and of the time the tool stops
    {
        const int64_t at[] = {1000000, 2000010, 30000000, 44900000, 44980000, 45004000, 45030000, 60000000, 100000000};
        for (int sim = 0; sim < 2; ++sim)
            for (int m = 1; m < 512; ++m)
            {
                if (!thorough() && __builtin_popcount(m) > 4) continue;
                if (!mine(m)) continue;
                Cfg c; c.sim = sim;
                std::vector<Rec> r;
                int id = 1;
                std::string n;
                for (int i = 0; i < 9; ++i)
                    if (m >> i & 1)
                    {
                        const int64_t t = at[i];
                        n += str(" %.3f", t / 1e6);
                        r.push_back({IMU, t - 4000, 0, 0, 0, id++});
                        r.push_back({OBS, t, t - 1000, GnssID::GPS, 5, id++});
                        r.push_back({OBS, t, t - 1000, GnssID::Galileo, 5, id++});
                    }
                state(hstr(n));
                run(usual(), r, c, str("long log (simulated %d), ticks at", sim) + n);
            }
    }
    sample("imu+gps | late | unknown");
    if (chdir("/")) return 3;
    fs::remove_all(DIR);
    return finish();
}
