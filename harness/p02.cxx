// P02: a configuration and a log of ephemerides in, a log of a simulated drive out: what the simulator's main() does between them.
#include "vh.h"
#include <fstream>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/random.h"
#include "sim/sim.h"
#include "utils/wgs84.h"
using namespace mc;
using namespace vh;
namespace fs = std::experimental::filesystem;

static jmp_buf jb;
static bool armed = false;
extern "C" void exit(int c) { if (armed) { armed = false; longjmp(jb, c == 0 ? 1 : 2); } _exit(c); }

struct Step { UTCTime t; math::TwoJet<double> x; math::DQuat<double> T; Vec2 clk; };
struct Seen
{
    int made = 0;
    sim::Sim::Options opt;
    UTCTime t0;
    std::vector<double> dts;
    std::vector<Step> steps;
    std::vector<std::pair<UTCTime, meas::ImuSample>> imu;
    std::vector<std::pair<UTCTime, meas::GnssObservation>> obs;
};
static Seen seen;
static int interrupt_at = -1, shift = 0;
namespace mc { namespace sim {
struct Watched : Sim
{
    Watched(const Options& o) : Sim(o) { ++seen.made; seen.opt = o; seen.t0 = t(); }
    void registerGnssCB(std::function<void(std::vector<meas::GnssObservation>)> f)
    {
        Sim::registerGnssCB([this, f](std::vector<meas::GnssObservation> o) { for (auto& x : o) seen.obs.push_back({t(), x}); f(o); });
    }
    void registerImuCB(std::function<void(meas::ImuSample)> f)
    {
        Sim::registerImuCB([this, f](meas::ImuSample i) { seen.imu.push_back({t(), i}); f(i); });
    }
    void step(double dt)
    {
        seen.dts.push_back(dt);
        for (int i = 0; i < shift; ++i) (void)randomNormal(2);
        Sim::step(dt);
        seen.steps.push_back({t(), x(), T_e2g(), clk()});
        if ((int)seen.steps.size() == interrupt_at) raise(SIGINT);
    }
};
} }
int main(int argc, char** argv) asm("simulate_main");
extern "C" int simulate_main(int argc, char** argv);
static int run_all();
extern "C" int start_here(int, char**) asm("main");
extern "C" int start_here(int, char**) { return run_all(); }
extern bool stop;
#define Sim Watched
#include "sim/simulate.cxx"
#undef Sim

static std::string DIR;
static UTCTime T(int64_t us) { UTCTime t(1600000000, 250000000); t += UTCTime(us / 1000000, us % 1000000 * 1000); return t; }
template <class E> static E mkeph(int sys, int num)
{
    E e(num);
    e.gnssID = sys; e.sat = num;
    e.toe = UTCTime((int64_t)1600000000, (int64_t)0); e.toc = e.toe; e.toes = (uint32_t)e.toe.GpsTow();
    e.sqrta = sys == GnssID::GPS ? 5153.7 : 5440.6; e.ecc = 0.01; e.m0 = -1.1 + 0.3 * num; e.delta_n = 4e-9; e.omega0 = 1.0; e.i0 = 0.96; e.w = 0.5;
    e.omegadot = -8e-9; e.idot = 1e-10; e.af0 = 1e-5; e.af1 = 1e-12; e.af2 = 0; e.cuc = 1e-6; e.cus = 2e-6; e.crc = 200; e.crs = 50; e.cic = 1e-7; e.cis = 2e-7;
    return e;
}
// ---- logs of ephemerides
static std::string mklog(const char* name, int64_t first_us, int variant)
{
    std::string d = DIR + "/" + name;
    logging::Logger l(T(first_us), d);
    l.initStream<ephemeris::GPSEphemeris>(logging::GPS_EPH, {"eph"});
    l.initStream<ephemeris::GalileoEphemeris>(logging::GAL_EPH, {"eph"});
    l.log(logging::GPS_EPH, T(first_us), mkeph<ephemeris::GPSEphemeris>(GnssID::GPS, 5));
    if (variant >= 1) l.log(logging::GPS_EPH, T(first_us + 30000), mkeph<ephemeris::GPSEphemeris>(GnssID::GPS, 6));
    if (variant >= 2) l.log(logging::GAL_EPH, T(first_us + 31000), mkeph<ephemeris::GalileoEphemeris>(GnssID::Galileo, 5));
    l.close(T(first_us + 5000000));
    return d;
}
static std::string one_log(const std::string& dir)
{
    std::string r;
    if (!fs::exists(dir)) return r;
    for (auto& e : fs::directory_iterator(dir)) r = e.path().string();
    return r;
}

// ---- configurations: one value for every key
struct Key { const char* name; std::string text; std::function<bool(const sim::Sim::Options&)> has, dflt; };
static bool eq(double a, double b) { return a == b || fabs(a - b) <= 1e-12 * fabs(b); }
static std::vector<Key> keys(int v)
{
    std::vector<Key> k;
    auto num = [&](const char* n, double val, double d, std::function<double(const sim::Sim::Options&)> g) {
        k.push_back({n, str("%.17g", val), [=](const sim::Sim::Options& o) { return eq(g(o), val); }, [=](const sim::Sim::Options& o) { return eq(g(o), d); }});
    };
    typedef sim::Sim::Options O;
    const double f = v ? 1.5 : 1;
    num("input_noise", v ? 0 : 0.003, 0.01, [](const O& o) { return o.input_noise; });
    num("max_speed", 20 * f, 10, [](const O& o) { return o.wp_options.max_speed; });
    num("max_omega", 0.5 * f, 1, [](const O& o) { return o.wp_options.max_omega; });
    num("gnss_update_rate", 8 * f, 5, [](const O& o) { return o.gnss_options.update_rate_hz_; });
    num("prange_stdev", v ? 0 : 2.5, 3, [](const O& o) { return o.gnss_options.pseudorange_stdev_; });
    num("cphase_stdev", v ? 0 : 0.03, 0.01, [](const O& o) { return o.gnss_options.carrier_phase_stdev_; });
    num("doppler_stdev", v ? 0 : 0.7, 1, [](const O& o) { return o.gnss_options.doppler_stdev_; });
    num("multipath_prob", 0.11 * f, 0, [](const O& o) { return o.gnss_options.multipath_probability_; });
    num("lol_probability", 0.12 * f, 0, [](const O& o) { return o.gnss_options.loss_of_lock_probability_; });
    num("clock_walk_stdev", v ? 0 : 3e-9, 1e-9, [](const O& o) { return o.gnss_options.clock_walk_stdev_; });
    num("clock_init_stdev", v ? 0 : 4e-9, 1e-10, [](const O& o) { return o.gnss_options.clock_init_stdev_; });
    num("update_rate", 80 * f, 250, [](const O& o) { return o.imu_options.update_rate_hz; });
    num("accel_noise_stdev", v ? 0 : 0.06, 0.05, [](const O& o) { return o.imu_options.accel_noise_stdev; });
    num("accel_walk_stdev", v ? 0 : 0.07, 0.001, [](const O& o) { return o.imu_options.accel_walk_stdev; });
    num("gyro_noise_stdev", v ? 0 : 0.08, 0.02, [](const O& o) { return o.imu_options.gyro_noise_stdev; });
    num("gyro_walk_stdev", v ? 0 : 0.09, 0.005, [](const O& o) { return o.imu_options.gyro_walk_stdev; });
    const Vec3 arm = f * Vec3(0.3, -0.2, 0.5);
    k.push_back({"p_b2g", str("[%.17g, %.17g, %.17g]", arm(0), arm(1), arm(2)), [=](const O& o) { return (o.gnss_options.p_b2g - arm).norm() < 1e-12; }, [](const O& o) { return o.gnss_options.p_b2g == Vec3(0, 0, 0); }});
    auto at = [](const O& o, double la, double lo, double h) {
        const double a = 6378137, fl = 1 / 298.257223563, e2 = fl * (2 - fl), n = a / sqrt(1 - e2 * sin(la) * sin(la));
        Vec3 p((n + h) * cos(la) * cos(lo), (n + h) * cos(la) * sin(lo), (n * (1 - e2) + h) * sin(la)), N(-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)), E(-sin(lo), cos(lo), 0);
        auto g = [&](Vec3 q) { return Vec3(o.gnss_options.T_e2n.transforma(q)); };
        return (g(Vec3(0, 0, 0)) - p).norm() < 1e-4 && (g(Vec3(1000, 0, 0)) - p - 1000 * N).norm() < 1e-3 && (g(Vec3(0, 1000, 0)) - p - 1000 * E).norm() < 1e-3;
    };
    const double la = v ? -0.6 : 0.7, lo = v ? 2.6 : -1.9, h = v ? 20 : 1400;
    k.push_back({"ref_lla", str("[%.17g, %.17g, %.17g]", la, lo, h), [=](const O& o) { return at(o, la, lo, h); }, [=](const O& o) { return at(o, 40.246184 * M_PI / 180, -111.647769 * M_PI / 180, 1387.998309); }});
    std::vector<Vec3> wp = v ? std::vector<Vec3>{{0, 5, 0}} : std::vector<Vec3>{{0, 0, 0}, {30, 0, 0}, {30, 30, 0}};
    std::string ws = "[";
    for (size_t i = 0; i < wp.size(); ++i) ws += str("%s[%g, %g, %g]", i ? ", " : "", wp[i](0), wp[i](1), wp[i](2));
    k.push_back({"waypoints", ws + "]", [=](const O& o) { return o.wp_options.waypoints == wp; }, [](const O& o) { return o.wp_options.waypoints == std::vector<Vec3>{{0, 0, 0}, {100, 100, 0}, {-100, 100, 0}, {-100, -100, 0}, {100, -100, 0}}; }});
    return k;
}

// what an automatic variable finds on the stack
static void __attribute__((noinline)) paint()
{
    volatile unsigned char b[256 * 1024];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = 0xC3;
}
// own, bytewise reading of a log of records: a time and n doubles
struct Rec { UTCTime t; std::vector<char> d; };
static std::vector<Rec> records(const std::string& log, const std::string& stream, size_t payload, bool& whole)
{
    std::vector<Rec> r;
    std::ifstream f(log + "/" + stream + ".log", std::ios::binary);
    whole = f.good();
    std::vector<char> b(16 + payload);
    for (;;)
    {
        f.read(b.data(), b.size());
        if (f.gcount() == 0) break;
        if ((size_t)f.gcount() != b.size()) { whole = false; break; }
        Rec x;
        memcpy(&x.t.sec, &b[0], 8); memcpy(&x.t.nsec, &b[8], 8);
        x.d.assign(b.begin() + 16, b.end());
        r.push_back(x);
    }
    return r;
}
static std::string whole_file(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }

struct Run { bool died = false, ok = false; std::string log, truth, imu, obs; };
static Run go(const std::string& eph, const std::string& cfg_text, double dt, double tmax, bool give_times, int64_t first_us, const std::string& what)
{
    Run r;
    ctx("%s", what.c_str());
    fs::remove_all(DIR + "/out");
    const std::string cf = DIR + "/cfg.yaml";
    { std::ofstream o(cf); o << "eph_log: " << eph << "\noutput_dir: " << DIR << "/out\n"; if (give_times) o << str("dt: %.17g\ntmax: %.17g\n", dt, tmax); o << cfg_text; }
    seen = Seen();
    stop = false;
    signal(SIGINT, SIG_IGN);
    const char* argv[] = {"simulate", "--config_file", cf.c_str()};
    armed = true;
    const int j = setjmp(jb);
    if (j == 0) { paint(); try { simulate_main(3, (char**)argv); r.ok = true; } catch (const std::exception& e) { r.died = true; } }
    else if (j == 2) r.died = true;
    armed = false;
    signal(SIGINT, SIG_IGN);
    transition();
    eval();
    if (!expect(!r.died, "the simulator gets through its configuration", what)) return r;
    r.log = one_log(DIR + "/out");
    if (!expect(r.log.size() && seen.made == 1, "a log is written", what)) { r.died = true; return r; }

    // the log: what the simulator said, when it said it
    YAML::Node m = YAML::LoadFile(r.log + "/manifest.yml");
    const UTCTime t0 = T(first_us);
    auto tm = [&](const char* k) { return UTCTime(m[k]["sec"].as<int64_t>(), m[k]["nsec"].as<int64_t>()); };
    expect(seen.t0 == t0, "the drive begins where the log of ephemerides begins", what);
    expect(m["amends"] && m["amends"].as<std::string>() == one_log(eph), "the log amends the log of ephemerides", what);
    expect(tm("start_time") == t0, "the log begins with the drive", what);
    expect(tm("end_time") == (seen.steps.empty() ? t0 : seen.steps.back().t), "the log ends with the drive", what);
    bool w1, w2, w3;
    const size_t JET = 20 * 8 - 8;  // checked below against the header
    (void)JET;
    // sizes of the records as the streams' headers state them
    std::function<size_t(const YAML::Node&)> bytes = [&](const YAML::Node& n) -> size_t {
        if (n["type"] && n["type"].IsScalar())
        {
            static const int S[] = {8, 4, 8, 4, 2, 1, 8, 4, 2, 1};
            size_t b = S[n["type"].as<int>()];
            if (n["rows"]) b *= n["rows"].as<int>();
            if (n["cols"]) b *= n["cols"].as<int>();
            return b;
        }
        size_t b = 0;
        for (auto f : n) b += bytes(f.second);
        return b;
    };
    auto size_of = [&](const char* s) { YAML::Node y = YAML::LoadFile(r.log + "/" + s + ".yml"); size_t b = 0; for (auto f : y["format"]) if (f.first.as<std::string>() != "t") b += bytes(f.second); return b; };
    auto count_of = [&](const char* s) { return YAML::LoadFile(r.log + "/" + s + ".yml")["num_records"].as<size_t>(); };
    auto tr = records(r.log, "TRUTH_POSE", size_of("TRUTH_POSE"), w1);
    auto im = records(r.log, "IMU_SAMPLE", size_of("IMU_SAMPLE"), w2);
    auto ob = records(r.log, "GNSS_OBS", size_of("GNSS_OBS"), w3);
    expect(w1 && w2 && w3 && tr.size() == count_of("TRUTH_POSE") && im.size() == count_of("IMU_SAMPLE") && ob.size() == count_of("GNSS_OBS"), "streams are whole", what);
    expect(tr.size() == seen.steps.size() && im.size() == seen.imu.size() && ob.size() == seen.obs.size(), "one record for every step, sample and observation",
           what + str(": %zu of %zu, %zu of %zu, %zu of %zu", tr.size(), seen.steps.size(), im.size(), seen.imu.size(), ob.size(), seen.obs.size()));
    // read back with the library's reader, checked elsewhere
    logging::LogReader rd(DIR + "/out");
    bool a = true, b = true, c = true;
    for (size_t i = 0; i < std::min(tr.size(), seen.steps.size()); ++i)
    {
        auto e = rd.getNext<math::TwoJet<double>, math::DQuat<double>, Vec2>(logging::TRUTH_POSE);
        auto& s = seen.steps[i];
        auto dq = [](const math::DQuat<double>& x, const math::DQuat<double>& y) { double m = 0; for (int i = 0; i < 8; ++i) m = worse(m, fabs(x.data()[i] - y.data()[i])); return m / std::max(1.0, fabs(y.data()[5]) + fabs(y.data()[6]) + fabs(y.data()[7])); };
        a = a && e.t == s.t && dq(std::get<0>(e.data).x, s.x.x) < 1e-12 && std::get<0>(e.data).dx == s.x.dx && std::get<0>(e.data).d2x == s.x.d2x && dq(std::get<1>(e.data), s.T) < 1e-12 && std::get<2>(e.data) == s.clk;
    }
    for (size_t i = 0; i < std::min(im.size(), seen.imu.size()); ++i)
    {
        auto e = rd.getNext<meas::ImuSample>(logging::IMU_SAMPLE);
        auto& s = seen.imu[i];
        auto& g = std::get<0>(e.data);
        b = b && e.t == s.first && g.t == s.second.t && g.accel == s.second.accel && g.gyro == s.second.gyro;
    }
    for (size_t i = 0; i < std::min(ob.size(), seen.obs.size()); ++i)
    {
        auto e = rd.getNext<meas::GnssObservation>(logging::GNSS_OBS);
        auto& s = seen.obs[i].second;
        auto& g = std::get<0>(e.data);
        c = c && e.t == seen.obs[i].first && g.t == s.t && g.gnss_id == s.gnss_id && g.sat_num == s.sat_num && g.pseudorange == s.pseudorange && g.doppler == s.doppler && g.carrier_phase == s.carrier_phase;
    }
    expect(a, "the log holds the motion of every step", what);
    expect(b, "the log holds every IMU sample", what);
    expect(c, "the log holds every observation", what);
    r.truth = whole_file(r.log + "/TRUTH_POSE.log"); r.imu = whole_file(r.log + "/IMU_SAMPLE.log"); r.obs = whole_file(r.log + "/GNSS_OBS.log");
    // the steps: of the given length, up to the end of the drive, not beyond
    if (interrupt_at < 0)
    {
        bool even = true;
        for (size_t i = 0; i < seen.steps.size(); ++i) even = even && fabs((seen.steps[i].t - t0).toSec() - dt * (i + 1)) < 1e-6 && eq(seen.dts[i], dt);
        expect(even, "steps are of the configured length", what);
        const double n = seen.steps.size();
        const int64_t step_ns = llround(dt * 1e9), span_ns = llround(tmax * 1e9);
        if (fabs(step_ns - dt * 1e9) < 1e-6 && fabs(span_ns - tmax * 1e9) < 1e-6) expect((int64_t)seen.steps.size() == (span_ns + step_ns - 1) / step_ns, "the drive lasts as long as configured", what + str(": %g steps", n));
        expect(n * dt > tmax - 1e-6 && (n == 0 || (n - 1) * dt < tmax + 1e-6), "the drive lasts as long as configured", what + str(": %g steps", n));
    }
    state(mix(hstr(what), tr.size()));
    nontrivial(hstr(what));
    outcome(mix(hstr(r.truth), hstr(r.imu)));
    return r;
}
static const char* QUIET = "input_noise: 0\nprange_stdev: 0\ncphase_stdev: 0\ndoppler_stdev: 0\nclock_walk_stdev: 0\nclock_init_stdev: 0\naccel_noise_stdev: 0\naccel_walk_stdev: 0\ngyro_noise_stdev: 0\ngyro_walk_stdev: 0\n";

// equal but for the sign of a zero
static bool same(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i + 8 <= a.size(); i += 8)
    {
        double x, y;
        memcpy(&x, &a[i], 8); memcpy(&y, &b[i], 8);
        if (memcmp(&a[i], &b[i], 8) && !(x == y)) return false;
    }
    return true;
}
static int run_all()
{
    init();
    if (!freopen("/dev/null", "w", stdout) || (!getenv("DBG") && !freopen("/dev/null", "w", stderr))) return 3;
    char tmp[] = "/tmp/p02XXXXXX";
    DIR = mkdtemp(tmp);
    const int64_t first[] = {0, 1500000, -749999};
    std::string elog[3];
    for (int i = 0; i < 3; ++i) elog[i] = mklog(str("eph%d", i).c_str(), first[i], i);
    // every set of keys out of: none, all, each one, all but one, pairs (thorough: triples)
    std::set<std::set<int>> sets;
    const int K = keys(0).size();
    std::set<int> all;
    for (int i = 0; i < K; ++i) all.insert(i);
    sets.insert(std::set<int>());
    sets.insert(all);
    for (int i = 0; i < K; ++i)
    {
        std::set<int> s = all; s.erase(i); sets.insert(s);
        for (int j = 0; j < K; ++j) { sets.insert({i, j}); if (thorough()) for (int k = 0; k < j; ++k) sets.insert({i, j, k}); }
    }
    int n = 0;
    for (auto& s : sets)
        for (int v = 0; v < 2; ++v)
        {
            if (!mine(mix(++n, v))) continue;
            auto ks = keys(v);
            std::string text, what = str("configuration (values %d):", v);
            for (int i : s) { text += ks[i].name + std::string(": ") + ks[i].text + "\n"; what += std::string(" ") + ks[i].name; }
            auto r = go(elog[n % 3], text, 0.01, 0.03, true, first[n % 3], what);
            if (r.died) continue;
            for (int i = 0; i < K; ++i)
                if (s.count(i)) expect(ks[i].has(seen.opt), "a configured value is used", what + " @ " + ks[i].name);
                else expect(ks[i].dflt(seen.opt), "a value that is not configured keeps its default", what + " @ " + ks[i].name);
        }
    // lengths and steps
    for (double dt : {0.001, 0.004, 0.01, 0.03})
        for (double tmax : {0.0, 0.0005, 0.01, 0.1, 0.25, 1.0})
            for (int rates = 0; rates < 3; ++rates)
                for (int e = 0; e < 3; ++e)
                {
                    if (!mine(mix(mix((int)(dt * 1e4), (int)(tmax * 1e4)), rates * 3 + e))) continue;
                    std::string rt = rates == 0 ? "" : rates == 1 ? "update_rate: 100\ngnss_update_rate: 10\n" : "update_rate: 30\ngnss_update_rate: 50\n";
                    auto what = str("steps of %g for %g, rates %d, ephemerides %d", dt, tmax, rates, e);
                    auto r = go(elog[e], rt, dt, tmax, true, first[e], what);
                    if (r.died) continue;
                    // without any noise: the same drive, whatever the generator is at
                    auto q = go(elog[e], rt + QUIET, dt, tmax, true, first[e], what + ", quiet");
                    if (q.died) continue;
                    shift = 3;
                    auto q2 = go(elog[e], rt + QUIET, dt, tmax, true, first[e], what + ", quiet, shifted");
                    shift = 0;
                    expect(same(q.truth, q2.truth) && same(q.imu, q2.imu), "a drive configured without noise has none", what);
                    if (seen.steps.size() > 1) expect(seen.steps.back().x.x.translation().norm() + seen.steps.back().x.dx.norm() > 0, "the car moves", what);
                }
    // interrupted at every step
    for (double dt : {0.004, 0.01})
        for (int e = 0; e < 3; ++e)
            for (int k = 1; k <= (thorough() ? 60 : 25); ++k)
            {
                if (!mine(mix(k, e * 2 + (dt > 0.005)))) continue;
                interrupt_at = k;
                auto r = go(elog[e], "gnss_update_rate: 50\n", dt, 100 * dt, true, first[e], str("steps of %g, interrupted in step %d, ephemerides %d", dt, k, e));
                interrupt_at = -1;
                if (!r.died) expect((int)seen.steps.size() == k, "an interrupt ends the drive after the step it came in", str("step %d: %zu steps", k, seen.steps.size()));
            }
    sample("configuration (values 1): input_noise waypoints");
    if (chdir("/")) return 3;
    fs::remove_all(DIR);
    return finish();
}
