// P03: what verify_ephemeris says about a log. The tool's own main() runs on real logs in a scratch directory.
#include "vh.h"
#include <fcntl.h>
#include <setjmp.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_writer.h"
#include "common/measurements/imu.h"
using namespace mc;
using namespace vh;
namespace fs = std::experimental::filesystem;

static jmp_buf jb;
static bool armed = false;
extern "C" void exit(int c) { if (armed) { armed = false; longjmp(jb, 1); } _exit(c); }

int main(int argc, char** argv) asm("verify_main");
extern "C" int verify_main(int argc, char** argv);
static int run_all();
extern "C" int start_here(int, char**) asm("main");
extern "C" int start_here(int, char**) { return run_all(); }
#include "tools/verify_ephemeris.cxx"

static std::string DIR;
struct Rec { int stream, gnss, sat; int64_t sec, nsec; UTCTime t; };   // logged at t, reference time t minus (sec, nsec)
static const char* const NAMES[] = {"GPS", "Galileo", "Glonass"};
static const int IDS[] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};

template <class E> static E eph(const Rec& r)
{
    E e;
    memset((void*)&e, 0, sizeof e);
    e.gnssID = r.gnss; e.sat = r.sat;
    // the age in whole nanoseconds: t - toe
    int64_t s = r.t.sec - r.sec, n = r.t.nsec - r.nsec;
    while (n < 0) { n += 1000000000; --s; }
    while (n >= 1000000000) { n -= 1000000000; ++s; }
    e.toe = UTCTime(s, n);
    return e;
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), {}); }
// the value after "key: " up to the next ", " or the end of the line
static std::string field(const std::string& line, const std::string& key)
{
    size_t p = 0;
    while ((p = line.find(key + ": ", p)) != std::string::npos && p > 0 && (isalnum(line[p - 1]) || line[p - 1] == '_')) ++p;
    if (p == std::string::npos) return "(none)";
    p += key.size() + 2;
    return line.substr(p, line.find(", ", p) - p);
}
struct Said { std::string type, sat, t, toe; double dt; };
static std::vector<Said> entries(const std::string& text)
{
    std::vector<Said> r;
    std::istringstream in(text);
    for (std::string l; std::getline(in, l);)
    {
        size_t p = l.find("Type: ");
        if (p == std::string::npos) continue;
        l = l.substr(p);
        r.push_back({field(l, "Type"), field(l, "sat"), field(l, "t"), field(l, "TOE"), atof(field(l, "dt").c_str())});
    }
    return r;
}
static size_t count(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) ++n; return n; }

static void run(const std::vector<Rec>& recs, bool imu, const std::string& what)
{
    ctxs(what);
    fs::remove_all(DIR + "/log");
    {
        logging::Logger l(UTCTime((int64_t)1600000000, (int64_t)0), DIR + "/log");
        l.initStream<ephemeris::GPSEphemeris>(logging::GPS_EPH, {"eph"});
        l.initStream<ephemeris::GalileoEphemeris>(logging::GAL_EPH, {"eph"});
        l.initStream<ephemeris::GlonassEphemeris>(logging::GLO_EPH, {"eph"});
        if (imu) l.initStream<meas::ImuSample>(logging::IMU_SAMPLE, {"imu"});
        for (auto& r : recs)
        {
            if (imu) { meas::ImuSample s; s.setZero(); l.log(logging::IMU_SAMPLE, r.t, s); }
            if (r.stream == 0) l.log(logging::GPS_EPH, r.t, eph<ephemeris::GPSEphemeris>(r));
            if (r.stream == 1) l.log(logging::GAL_EPH, r.t, eph<ephemeris::GalileoEphemeris>(r));
            if (r.stream == 2) l.log(logging::GLO_EPH, r.t, eph<ephemeris::GlonassEphemeris>(r));
        }
        l.close(UTCTime((int64_t)1600001000, (int64_t)0));
    }
    std::string log = DIR + "/log";
    fflush(stdout); fflush(stderr);
    const int keep1 = dup(1), keep2 = dup(2);
    const int f1 = open((DIR + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), f2 = open((DIR + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(f1, 1); dup2(f2, 2); close(f1); close(f2);
    std::string a0 = "verify_ephemeris", a1 = "--log";
    char* argv[] = {&a0[0], &a1[0], &log[0], nullptr};
    volatile int rc = -99;
    armed = true;
    if (!setjmp(jb)) rc = verify_main(3, argv);
    armed = false;
    fflush(stdout); fflush(stderr);
    dup2(keep1, 1); dup2(keep2, 2); close(keep1); close(keep2);
    const std::string out = slurp(DIR + "/out"), err = slurp(DIR + "/err");
    eval(); trace(); transition(recs.size() + 1);
    VH_EXPECT(rc == 0, "tool fails", "%s: returned %d: %.200s", what.c_str(), (int)rc, err.c_str());
    const auto fresh = entries(out), old = entries(err);
    std::vector<Rec> wf, wo;
    for (auto& r : recs)
    {
        const bool far = r.sec > 7200 || (r.sec == 7200 && r.nsec > 0) || r.sec < -7200 || (r.sec == -7200 && r.nsec < 0);
        (far ? wo : wf).push_back(r);
    }
    VH_EXPECT(fresh.size() == wf.size() && old.size() == wo.size(), "number of entries", "%s: %zu ordinary and %zu unusual entries reported, the log has %zu and %zu", what.c_str(), fresh.size(), old.size(), wf.size(), wo.size());
    VH_EXPECT(count(err, "Unusual Timestamp") == wo.size() && !count(out, "Unusual Timestamp"), "unusual entries", "%s: %zu marked unusual, the log has %zu", what.c_str(), count(err, "Unusual Timestamp"), wo.size());
    for (int far = 0; far < 2; ++far)
    {
        auto& g = far ? old : fresh; auto& w = far ? wo : wf;
        if (g.size() != w.size()) continue;
        for (size_t i = 0; i < g.size(); ++i)
        {
            const Rec& r = w[i];
            const UTCTime toe = eph<ephemeris::GPSEphemeris>(r).toe;
            const double dt = (double)r.sec + 1e-9 * r.nsec;
            VH_EXPECT(r.gnss != IDS[r.stream] || g[i].type == NAMES[r.stream], "system", "%s: entry %zu is called %s", what.c_str(), i, g[i].type.c_str());
            VH_EXPECT(g[i].sat == std::to_string(r.sat), "satellite", "%s: entry %zu is given satellite %s", what.c_str(), i, g[i].sat.c_str());
            VH_EXPECT(g[i].t == fmt::format("{}", r.t) && g[i].toe == fmt::format("{}", toe), "times", "%s: entry %zu: t %s TOE %s", what.c_str(), i, g[i].t.c_str(), g[i].toe.c_str());
            VH_EXPECT(fabs(g[i].dt - dt) <= 1e-6 + 1e-12 * fabs(dt), "age", "%s: entry %zu: dt %.12g, the ephemeris is %.12g s old", what.c_str(), i, g[i].dt, dt);
        }
    }
    uint64_t h = imu;
    for (auto& r : recs) h = mix(mix(mix(h, r.stream * 256 + r.gnss), r.sat), mix(r.sec, r.nsec));
    state(h);
    if (wf.size() && wo.size()) nontrivial(h);
    outcome(mix(wf.size(), wo.size()));
}

static int run_all()
{
    init();
    char tmp[] = "/tmp/vh_p03_XXXXXX";
    if (!mkdtemp(tmp)) return 2;
    DIR = tmp;
    struct Age { int64_t s, n; };
    const Age ages[] = {{0, 0}, {3600, 500000000}, {7199, 999999999}, {7200, 0}, {7200, 1000}, {7201, 0}, {-3599, 0}, {-7200, 0}, {-7200, -1000}, {-7260, -250000000}, {604800, 0}, {-86400 * 400LL, 0}};
    const int na = sizeof ages / sizeof *ages;
    const UTCTime T0((int64_t)1600000000, (int64_t)250000000);
    auto rec = [&](int letter, int pos) {
        Rec r; r.stream = letter % 3; r.gnss = IDS[r.stream];
        r.sec = ages[letter / 3].s; r.nsec = ages[letter / 3].n;
        r.sat = (letter * 7 + pos * 13) % 36 + 1;
        r.t = T0; r.t += UTCTime((int64_t)pos * 37, (int64_t)pos * 31000000);
        return r;
    };
    const int D = thorough() ? 3 : 2;
    for (int len = 0; len <= D; ++len)
        words(na * 3, len, [&](const std::vector<int>& w) {
            std::vector<Rec> v;
            for (size_t i = 0; i < w.size(); ++i) v.push_back(rec(w[i], i));
            run(v, false, "letters " + wstr(w));
            if (len < 2) run(v, true, "among inertial samples, letters " + wstr(w));
        });
    // long logs: every order of the three systems, the ages in turn
    words(3, thorough() ? 7 : 5, [&](const std::vector<int>& w) {
        std::vector<Rec> v;
        for (size_t i = 0; i < w.size(); ++i) v.push_back(rec((i * 5 + w[i]) % na * 3 + w[i], i));
        run(v, true, "systems " + wstr(w));
    });
    // every satellite number
    for (int s = 0; s < 256; ++s)
        for (int st = 0; st < 3; ++st)
            if (mine(s * 3 + st))
            {
                std::vector<Rec> v{rec(st, 0), rec(st + 3 * 5, 1)};
                v[0].sat = v[1].sat = s;
                run(v, false, str("stream %d satellite %d", st, s));
            }
    if (first()) sample("GPS ephemeris received exactly 7200 s after its reference time, then a Galileo one 1 us older than that");
    fs::remove_all(DIR);
    return finish();
}
