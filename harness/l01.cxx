// L01: what is logged is what is read back, in time order, through any combination of streams, subscriptions, maintenance
// callbacks and amended logs. Every history up to the bound is written with the real Logger and read with the real LogReader,
// and compared with a queue model of the log.
#include "vh.h"
#include <deque>
#include <fstream>
#include <set>
#include <sys/wait.h>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "common/matrix_defs.h"
using namespace mc;
using namespace mc::logging;
using namespace vh;
namespace fs = std::experimental::filesystem;
typedef Eigen::Matrix<double, 2, 3> M23;
static std::string DIR;
static const int KA = IMU_SAMPLE, KB = GNSS_OBS, KC = 7001;
static const UTCTime T0(1600000000, 999999998), TS(1599999999, 250000000), TE(1600009999, 750000001);

struct Rec { int key; UTCTime t; int id; bool operator==(const Rec& o) const { return key == o.key && t == o.t && id == o.id; } };

static meas::ImuSample imu(int id)
{
    meas::ImuSample s; s.t = UTCTime(1000 + id, 7 * id);
    s.accel << id + 0.125, -id, 1.0 / (id + 3); s.gyro << -0.5 * id, 1e-300 * id, 1e300;
    return s;
}
static meas::GnssObservation obs(int id)
{
    meas::GnssObservation o; o.t = UTCTime(-1000 - id, 999999999 - id);
    o.gnss_id = id; o.sat_num = 255 - id; o.freq = 1.5e9 + id; o.pseudorange = 2e7 + id / 7.0; o.doppler = -id; o.carrier_phase = 1e8 / (id + 1);
    return o;
}
struct C3 { int64_t a; double b; M23 c; uint8_t d; };
static C3 c3(int id)
{
    C3 r; r.a = -(1ll << 60) + id; r.b = 1.0 / (id + 7); r.d = 200 + id;
    for (int i = 0; i < 6; ++i) r.c(i / 3, i % 3) = id * 10 + i + 0.5;
    return r;
}
static bool eq(const meas::ImuSample& a, const meas::ImuSample& b) { return a.t == b.t && a.accel == b.accel && a.gyro == b.gyro; }
static bool eq(const meas::GnssObservation& a, const meas::GnssObservation& b)
{
    return a.t == b.t && a.gnss_id == b.gnss_id && a.sat_num == b.sat_num && a.freq == b.freq && a.pseudorange == b.pseudorange &&
           a.doppler == b.doppler && a.carrier_phase == b.carrier_phase;
}
static bool eq(const C3& a, const C3& b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d; }
template <typename F, typename V> static int ident(F f, const V& v)
{
    for (int i = 0; i < 64; ++i) if (eq(f(i), v)) return i;
    return -1;
}
static void put(Logger& lg, int key, const UTCTime& t, int id)
{
    if (key == KA) lg.log(KA, t, imu(id));
    else if (key == KB) lg.log(KB, t, obs(id));
    else { C3 c = c3(id); lg.log(KC, t, c.a, c.b, c.c, c.d); }
}
static int take(int key, StreamReader& r)
{
    if (key == KA) { meas::ImuSample s; r.get(s); return ident(imu, s); }
    if (key == KB) { meas::GnssObservation o; r.get(o); return ident(obs, o); }
    C3 c; r.get(c.a, c.b, c.c, c.d); return ident(c3, c);
}
static void init_stream(Logger& lg, int key)
{
    if (key == KA) lg.initStream<meas::ImuSample>(KA, {"imu"});
    else if (key == KB) lg.initStream<meas::GnssObservation>(KB, {"obs"});
    else lg.initStream<int64_t, double, M23, uint8_t>(KC, {"a", "b", "c", "d"});
}
static const int KEYS[3] = {KA, KB, KC};

struct Maint { double period; int exit_at; };   // exit_at: which call asks to stop (0: never)
struct Outcome { std::vector<Rec> recs; std::vector<std::vector<UTCTime>> maint; };
static std::string show(const std::vector<Rec>& r)
{
    std::string s;
    for (auto& x : r) s += str("(%d %lld.%09lld #%d)", x.key, (long long)x.t.sec, (long long)x.t.nsec, x.id);
    return s;
}

// Model: one queue per stream; deliver any stream whose head is minimal. `got` fixes the choice among equal stamps.
static void check_read(const std::map<int, std::vector<Rec>>& written, std::set<int> subs, const std::vector<Maint>& maint, const UTCTime& start,
                       const Outcome& got, const char* what)
{
    std::map<int, std::deque<Rec>> q;
    for (auto& w : written) if (subs.count(w.first)) q[w.first] = std::deque<Rec>(w.second.begin(), w.second.end());
    std::vector<UTCTime> next(maint.size(), start);
    std::vector<std::vector<UTCTime>> mexp(maint.size());
    std::vector<Rec> exp;
    size_t i = 0;
    bool stop = false;
    while (!stop)
    {
        const Rec* best = nullptr;
        for (auto& s : q) if (!s.second.empty() && (!best || s.second.front().t < best->t)) best = &s.second.front();
        if (!best) break;
        for (size_t m = 0; m < maint.size() && !stop; ++m)
            if ((next[m] - best->t).toSec() <= 1e-6)
            {
                // the reader may round the due time to its clock resolution; the enumerated stamps keep clear of that choice
                mexp[m].push_back(best->t);
                next[m] += maint[m].period;
                if (maint[m].exit_at && (int)mexp[m].size() == maint[m].exit_at) stop = true;
            }
        if (stop) break;
        if (i < got.recs.size())
        {
            auto& g = got.recs[i];
            auto it = q.find(g.key);
            if (it != q.end() && !it->second.empty() && it->second.front() == g && !(best->t < g.t)) { exp.push_back(g); it->second.pop_front(); ++i; transition(); state(mix(mix(hstr(show(exp)), q.size()), 7)); continue; }
        }
        exp.push_back(*best);
        q[best->key].pop_front();
        ++i;
    }
    VH_EXPECT(exp == got.recs, str("%s: records delivered", what), "expected %s got %s", show(exp).c_str(), show(got.recs).c_str());
    if (!maint.empty()) VH_EXPECT(mexp == got.maint, str("%s: maintenance callbacks", what), "expected %zu got %zu calls", mexp[0].size(), got.maint[0].size());
}

static Outcome do_read(const std::string& path, const std::set<int>& subs, const std::vector<Maint>& maint, UTCTime* s = nullptr, UTCTime* e = nullptr)
{
    Outcome o; o.maint.resize(maint.size());
    LogReader lr(path);
    if (s) *s = lr.startTime();
    if (e) *e = lr.endTime();
    for (int k : subs)
        lr.setCallback(k, [&, k](const UTCTime& t, int key, StreamReader& r) {
            VH_EXPECT(k == key, "callback called for another stream", "subscribed %d got %d", k, key);
            UTCTime stamp = t;
            o.recs.push_back(Rec{key, stamp, take(key, r)});
            if (o.recs.size() > 200) { violation("reader does not stop", g().sh->ctx); finish(); }
        });
    for (size_t m = 0; m < maint.size(); ++m)
        lr.setMaintenanceCallback(maint[m].period, [&, m](const UTCTime& t) -> Error {
            o.maint[m].push_back(t);
            if (maint[m].exit_at && (int)o.maint[m].size() == maint[m].exit_at) return Error::create("stop");
            return Error::none();
        });
    lr.read();
    return o;
}

static void wipe(const std::string& d) { std::error_code ec; fs::remove_all(d, ec); }

static void history(const std::vector<int>& w, uint64_t idx)
{
    // symbol: stream (3) x time step (4)
    ctx("history %s", wstr(w).c_str());
    static const std::pair<int64_t, int64_t> STEP[4] = {{0, 0}, {0, 1}, {1, 0}, {0, -500000000}};
    std::string root = DIR + "/h";
    std::map<int, std::vector<Rec>> wr;
    std::string path;
    {
        Logger lg(TS, root);
        for (int k : KEYS) { init_stream(lg, k); wr[k]; }
        UTCTime t = T0;
        int id = 0;
        for (int sym : w)
        {
            auto& d = STEP[sym / 3];
            t = UTCTime(t.sec + d.first, t.nsec + d.second);
            put(lg, KEYS[sym % 3], t, ++id);
            wr[KEYS[sym % 3]].push_back(Rec{KEYS[sym % 3], t, id});
            transition();
        }
        path = root + "/" + lg.logId();
        lg.close(TE);
    }
    state(mix(hstr(wstr(w)), 1));
    std::set<int> all{KA, KB, KC};
    UTCTime s(0, 0), e(0, 0);
    check_read(wr, all, {}, TS, do_read(path, all, {}, &s, &e), "read all");
    trace();
    VH_EXPECT(s == TS, "start time of the log", "%lld.%09lld", (long long)s.sec, (long long)s.nsec);
    VH_EXPECT(e == TE, "end time of the log", "%lld.%09lld", (long long)e.sec, (long long)e.nsec);
    outcome(hstr(show(wr[KA]) + show(wr[KB])));
    int b = (int)(idx % 8);
    for (int m = 0; m < 8; ++m)
        if (w.size() <= 2 || m == b)
        {
            std::set<int> sub;
            for (int i = 0; i < 3; ++i) if (m >> i & 1) sub.insert(KEYS[i]);
            check_read(wr, sub, {}, TS, do_read(path, sub, {}), "read a subset of the streams");
            trace();
        }
    static const double P[3] = {0.5, 1.25, 3.0};
    int v = 0;
    for (int p = 0; p < 3; ++p)
        for (int x = 0; x < 4; ++x, ++v)
            if (w.size() <= 2 || v == (int)(idx / 8 % 12))
            {
                std::vector<Maint> mm{{P[p], x}, {P[(p + 1) % 3], 0}};
                check_read(wr, all, mm, TS, do_read(path, all, mm), "read with maintenance callbacks");
                trace();
            }
    // random access by stream
    if (w.size() <= 3 || b == 0)
    {
        LogReader lr(path);
        for (auto& r : wr[KA]) { auto x = lr.getNext<meas::ImuSample>(KA); VH_EXPECT(x.t == r.t && ident(imu, std::get<0>(x.data)) == r.id, "getNext", "id %d", r.id); }
        for (auto& r : wr[KB]) { auto x = lr.getNext<meas::GnssObservation>(KB); VH_EXPECT(x.t == r.t && ident(obs, std::get<0>(x.data)) == r.id, "getNext", "id %d", r.id); }
        for (auto& r : wr[KC])
        {
            auto x = lr.getNext<int64_t, double, M23, uint8_t>(KC);
            C3 c{std::get<0>(x.data), std::get<1>(x.data), std::get<2>(x.data), std::get<3>(x.data)};
            VH_EXPECT(x.t == r.t && ident(c3, c) == r.id, "getNext", "id %d", r.id);
        }
        trace();
    }
    wipe(root);
}

// Chains of up to three logs that amend one another: for each stream, the newest log that has it wins.
static void amend_case(const int mask[3], int nlogs)
{
    ctx("amends: %d logs, stream masks %d %d %d", nlogs, mask[0], mask[1], mask[2]);
    std::string root = DIR + "/am";
    std::map<int, std::vector<Rec>> eff;
    std::string prev;
    UTCTime smin = UTCTime::max(), emax = UTCTime::min();
    std::string path;
    int id = 0;
    for (int l = 0; l < nlogs; ++l)
    {
        static const int START[3] = {200, 0, 100};   // the amending log may well cover an earlier period
        UTCTime s(TS.sec + START[l], 5), e(TS.sec + 1000 - START[l], 9);
        Logger lg(s, root + str("/%d", l));
        if (!prev.empty()) lg.amends(prev);
        for (int i = 0; i < 3; ++i)
            if (mask[i] >> l & 1)
            {
                init_stream(lg, KEYS[i]);
                eff[KEYS[i]].clear();
                for (int k = 0; k < 2; ++k)
                {
                    UTCTime t(T0.sec + START[l] + i * 3 + k * 5, 11 * l);
                    ++id;
                    put(lg, KEYS[i], t, id);
                    eff[KEYS[i]].push_back(Rec{KEYS[i], t, id});
                    transition();
                }
            }
        path = prev = root + str("/%d/", l) + lg.logId();
        lg.close(e);
        smin = std::min(smin, s); emax = std::max(emax, e);
        state(mix(mask[0] * 64 + mask[1] * 8 + mask[2], l + 10));
    }
    std::set<int> all{KA, KB, KC};
    UTCTime s(0, 0), e(0, 0);
    Outcome o = do_read(path, all, {}, &s, &e);
    check_read(eff, all, {}, smin, o, "amended log");
    VH_EXPECT(s == smin && e == emax, "amended log: time span", "start %lld end %lld", (long long)s.sec, (long long)e.sec);
    trace();
    wipe(root);
}

static int forked(const std::function<void()>& f)
{
    pid_t p = fork();
    if (!p) { f(); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/l01";
    fs::create_directories(DIR);
    int N = thorough() ? 5 : 4;
    uint64_t idx = 0;
    for (int n = 0; n <= N; ++n) words(12, n, [&](const std::vector<int>& w) { history(w, idx++); });
    if (first()) sample("12-symbol histories (stream x time step, including equal and decreasing stamps) of length 0..N");
    int c = 0;
    for (int n = 1; n <= 3; ++n)
        for (int m = 0; m < (1 << (3 * n)); ++m, ++c)
            if (mine(c))
            {
                int full = (1 << n) - 1;
                int mask[3] = {m & full, m >> n & full, m >> (2 * n) & full};
                amend_case(mask, n);
            }
    if (first())
    {
        // one logger, several logs: opening another log finishes the current one
        for (int n = 1; n <= 3; ++n)
            for (int explicit_close = 0; explicit_close < 2; ++explicit_close)
            {
                ctx("reopen %d logs explicit_close=%d", n, explicit_close);
                std::vector<std::string> paths;
                {
                    Logger lg(UTCTime(TS.sec, 0), DIR + "/r0");
                    for (int l = 0; l < n; ++l)
                    {
                        if (l) lg.open(UTCTime(TS.sec + 60 * l, 0), DIR + str("/r%d", l));
                        init_stream(lg, KA);
                        for (int k = 0; k <= l; ++k) put(lg, KA, UTCTime(T0.sec + k, 0), 10 * l + k);
                        paths.push_back(DIR + str("/r%d/", l) + lg.logId());
                        if (explicit_close) lg.close(TE);
                        transition();
                    }
                }
                for (int l = 0; l < n; ++l)
                {
                    std::map<int, std::vector<Rec>> wr;
                    for (int k = 0; k <= l; ++k) wr[KA].push_back(Rec{KA, UTCTime(T0.sec + k, 0), 10 * l + k});
                    UTCTime e(0, 0);
                    check_read(wr, {KA}, {}, TS, do_read(paths[l], {KA}, {}, nullptr, &e), "log reopened");
                    if (explicit_close) VH_EXPECT(e == TE, "end time of the log", "reopened");
                    trace();
                }
                for (int l = 0; l < n; ++l) wipe(DIR + str("/r%d", l));
            }
        // a folder of logs: the latest one is opened, whatever else lies there
        for (int perm = 0; perm < 6; ++perm)
        {
            static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            static const int64_t AT[3] = {951782400 /*2000-02-29*/, 1609459199 /*2020-12-31 23:59:59*/, 1609459200};
            ctx("latest log, creation order %d", perm);
            std::string root = DIR + "/latest";
            for (int i = 0; i < 3; ++i)
            {
                int l = P[perm][i];
                Logger lg(UTCTime(AT[l], 0), root);
                init_stream(lg, KA);
                put(lg, KA, T0, l + 1);
                transition();
            }
            fs::create_directories(root + "/zzz_not_a_log");
            fs::create_directories(root + "/20991231");
            std::map<int, std::vector<Rec>> wr;
            wr[KA].push_back(Rec{KA, T0, 3});
            check_read(wr, {KA}, {}, TS, do_read(root, {KA}, {}), "latest log of a folder");
            trace();
            state(mix(perm, 0x1a7e57));
            wipe(root);
        }
        // misuse is refused rather than written to the wrong place
        ctx("misuse");
        std::string root = DIR + "/mis";
        VH_EXPECT(forked([&] { Logger lg(TS, root); init_stream(lg, KA); put(lg, KB, T0, 1); }) != 0, "logging to a stream that was never initialised is refused", "-");
        VH_EXPECT(forked([&] { Logger lg(TS, root); init_stream(lg, KA); init_stream(lg, KA); }) != 0, "a stream cannot be initialised twice", "-");
        VH_EXPECT(forked([&] { Logger lg(TS, root); init_stream(lg, KA); put(lg, KA, T0, 1); lg.close(TE); }) == 0, "correct use is accepted", "-");
        VH_EXPECT(forked([&] { LogReader lr(root + "/nothing_here/20200101_000000"); }) != 0, "a log that does not exist is refused", "-");
        transition(4);
        wipe(root);
        // log ids are the UTC calendar time of the start
        for (int64_t t = 946684800; t < 2524608000ll; t += 86400 * 7 + 3661)
        {
            time_t tt = t; tm g; gmtime_r(&tt, &g);
            char b[32]; strftime(b, 32, "%Y%m%d_%H%M%S", &g);
            VH_EXPECT(createLogId(UTCTime(t, 5)) == b, "log id", "%s", b);
            transition();
        }
    }
    finish();
}
