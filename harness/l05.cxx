// L05: whichever way a log is named, both readers open that log, and they agree on what is in it.
#include "vh.h"
#include <csetjmp>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/measurements/imu.h"
using namespace mc;
using namespace mc::logging;
using namespace vh;
namespace fs = std::experimental::filesystem;
static std::string DIR;
static const int KEYS[3] = {IMU_SAMPLE, 7002, 7003};
static FILE* J;

static bool armed = false;
static jmp_buf jb;
extern "C" void exit(int c)
{
    if (armed) { armed = false; longjmp(jb, 1); }
    fflush(stdout); _exit(c);
}

// one record: which stream, which log it was written in, its index
static UTCTime stamp(int log, int s, int i) { return UTCTime(1700000000 + 100 * i + 10 * s + log, 1000 * (log + 1) + i); }
static double val(int log, int s, int i) { return 1000 * log + 100 * s + i + 0.25; }
static meas::ImuSample imu(int log, int i)
{
    meas::ImuSample m; double v = val(log, 0, i);
    m.t = UTCTime(int64_t(v), 5); m.accel << v, -v, 0.5; m.gyro << 1, 2 * v, -3;
    return m;
}
struct LogSpec { int n[3] = {-1, -1, -1}; /* records per stream, -1: no such stream */ };
static UTCTime T_START(int l) { return UTCTime(1600000000 + 86400 * l, 250000 + l); }
static UTCTime T_END(int l) { return UTCTime(1600009999 + 86400 * l - (l == 1 ? 200000 : 0), 999999999 - l); }

static std::unique_ptr<Logger> WRITER;   // one writer for several logs
static std::string write_log(const std::string& root, int l, const LogSpec& s, const std::string& amends, bool one = false)
{
    std::unique_ptr<Logger> fresh;
    if (one && WRITER) WRITER->open(T_START(l), root);
    else fresh = std::make_unique<Logger>(T_START(l), root);
    if (one && fresh) WRITER = std::move(fresh);
    Logger& lg = one ? *WRITER : *fresh;
    if (s.n[0] >= 0) lg.initStream<meas::ImuSample>(KEYS[0], {"imu"});
    if (s.n[1] >= 0) lg.initStream<uint8_t, double, Vec3f>(KEYS[1], {"a", "b", "c"});
    if (s.n[2] >= 0) lg.initStream<double>(KEYS[2], {"x"});
    if (!amends.empty()) lg.amends(amends);
    for (int i = 0; i < 3; ++i)
    {
        if (i < s.n[0]) lg.log(KEYS[0], stamp(l, 0, i), imu(l, i));
        if (i < s.n[1]) lg.log(KEYS[1], stamp(l, 1, i), (uint8_t)(10 * l + i), val(l, 1, i), Vec3f(i, l, 7));
        if (i < s.n[2]) lg.log(KEYS[2], stamp(l, 2, i), val(l, 2, i));
    }
    std::string p = root + "/" + lg.logId();
    lg.close(T_END(l));
    return p;
}

struct Want { std::vector<std::pair<int, LogSpec>> chain; /* newest first */ };
static void expect_of(const Want& w, int log_of[3], int n_of[3])
{
    for (int s = 0; s < 3; ++s)
    {
        log_of[s] = -1; n_of[s] = -1;
        for (auto& c : w.chain) if (c.second.n[s] >= 0) { log_of[s] = c.first; n_of[s] = c.second.n[s]; break; }
    }
}

static int CUR[3];
static std::array<std::vector<std::pair<UTCTime, bool>>, 3> GOT;
static void subscribe(LogReader& lr)
{
    lr.setCallback(KEYS[0], [](const UTCTime& t, int, StreamReader& r) { meas::ImuSample m; UTCTime st = t; r.get(m); int i = GOT[0].size(); auto e = imu(CUR[0], i); GOT[0].push_back({st, m.t == e.t && m.accel == e.accel && m.gyro == e.gyro}); if (i > 20) { violation("reading does not end", ""); finish(); _exit(1); } });
    lr.setCallback(KEYS[1], [](const UTCTime& t, int, StreamReader& r) { uint8_t a = 0; double b = 0; Vec3f c(0, 0, 0); UTCTime st = t; r.get(a, b, c); int i = GOT[1].size(); GOT[1].push_back({st, a == 10 * CUR[1] + i && b == val(CUR[1], 1, i) && c == Vec3f(i, CUR[1], 7)}); if (i > 20) { violation("reading does not end", ""); finish(); _exit(1); } });
    lr.setCallback(KEYS[2], [](const UTCTime& t, int, StreamReader& r) { double b = 0; UTCTime st = t; r.get(b); int i = GOT[2].size(); GOT[2].push_back({st, b == val(CUR[2], 2, i)}); if (i > 20) { violation("reading does not end", ""); finish(); _exit(1); } });
}
static void judge(LogReader& lr, const Want& w, const char* what, const std::string& path)
{
    int n[3];
    expect_of(w, CUR, n);
    std::array<std::vector<std::pair<UTCTime, bool>>, 3> dummy;
    for (auto& g : GOT) g.clear();
    lr.read();
    for (int s = 0; s < 3; ++s)
    {
        VH_EXPECT((int)GOT[s].size() == std::max(0, n[s]), str("%s: number of records", what), "stream %d: %zu for %d, %s", s, GOT[s].size(), n[s], path.c_str());
        for (size_t i = 0; i < GOT[s].size() && (int)i < n[s]; ++i)
            VH_EXPECT(GOT[s][i].second && GOT[s][i].first == stamp(CUR[s], s, i), str("%s: record", what), "stream %d record %zu, %s", s, i, path.c_str());
        transition(GOT[s].size() + 1);
    }
    UTCTime a = T_START(w.chain[0].first), b = T_END(w.chain[0].first);
    for (auto& c : w.chain) { a = std::min(a, T_START(c.first)); b = std::max(b, T_END(c.first)); }
    VH_EXPECT(lr.startTime() == a && lr.endTime() == b, str("%s: start and end", what), "%ld..%ld for %ld..%ld, %s", (long)lr.startTime().sec, (long)lr.endTime().sec, (long)a.sec, (long)b.sec, path.c_str());
    trace();
}
static bool jfirst = true;
static void note(const std::string& open, const Want& w, const char* what, bool refuse = false)
{
    int lo[3], n[3];
    if (!refuse) expect_of(w, lo, n);
    fprintf(J, "%s\n{\"open\":\"%s\",\"what\":\"%s\",\"refuse\":%s,\"streams\":{", jfirst ? "" : ",", open.c_str(), what, refuse ? "true" : "false");
    jfirst = false;
    bool f = true;
    if (!refuse) for (int s = 0; s < 3; ++s) if (n[s] >= 0)
    {
        fprintf(J, "%s\"%d\":[", f ? "" : ",", KEYS[s]); f = false;
        for (int i = 0; i < n[s]; ++i) { UTCTime t = stamp(lo[s], s, i); fprintf(J, "%s[%ld,%ld,%.17g]", i ? "," : "", (long)t.sec, (long)t.nsec, val(lo[s], s, i)); }
        fprintf(J, "]");
    }
    fprintf(J, "}}");
}

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/l05";
    fs::create_directories(DIR);
    { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
    J = fopen((DIR + "/expect.json").c_str(), "w");
    fprintf(J, "[");
    uint64_t cn = 0;
    auto cpp = [&](const std::string& path, const Want& w, const char* what) {
        ctx("%s %s", what, path.c_str());
        bool ok = false;
        std::unique_ptr<LogReader> lr;
        if (setjmp(jb) == 0) { armed = true; lr = std::make_unique<LogReader>(path); armed = false; ok = true; }
        VH_EXPECT(ok, str("%s: refused", what), "%s", path.c_str());
        if (!ok) { lr.release(); return; }
        subscribe(*lr);
        judge(*lr, w, what, path);
    };
    auto cpp_refuses = [&](const std::string& path, const char* what) {
        ctx("%s %s", what, path.c_str());
        LogReader* volatile lr = nullptr;
        bool ok = false;
        if (setjmp(jb) == 0) { armed = true; try { lr = new LogReader(path); ok = true; } catch (...) {} armed = false; }
        VH_EXPECT(!ok, str("%s: accepted", what), "%s", path.c_str());
        trace(); transition();
    };

    // 1. contents: chains of one to three logs, each amending the one before, every choice of streams in each
    int MAXC = 3;
    for (int len = 1; len <= MAXC; ++len)
    {
        int total = 1;
        for (int i = 0; i < len; ++i) total *= 8;
        for (int prog = 0; prog < total; ++prog)
            for (int rot = 0; rot < 6; ++rot)
            {
                // the last three: one writer writes all of them, every other amends nothing
                bool one = rot >= 3;
                if (len == 1 && one) continue;
                if (len == 3 && !thorough() && rot % 3 != (prog + prog / 8 + one) % 3) continue;
                if (!mine(cn++)) continue;
                ctx("chain of %d logs, streams %o, counts %d", len, prog, rot);
                std::string root = DIR + str("/c%d_%d_%d", len, prog, rot), prev;
                Want w;
                WRITER.reset();
                std::vector<std::pair<std::string, Want>> every;
                for (int l = 0; l < len; ++l)
                {
                    LogSpec sp;
                    int m = prog >> (3 * l) & 7;
                    for (int s = 0; s < 3; ++s) if (m >> s & 1) sp.n[s] = (rot + l + s) % 3;
                    if (one && l == 2 && prog & 1) { prev = ""; w.chain.clear(); }
                    prev = write_log(root, l, sp, prev, one);
                    w.chain.insert(w.chain.begin(), {l, sp});
                    every.push_back({prev, w});
                }
                if (one) for (size_t l = 0; l + 1 < every.size(); ++l) cpp(every[l].first, every[l].second, "an earlier log of the writer");
                cpp(prev, w, "the log");
                note(prev, w, "the log");
                state(mix(mix(len, prog), rot));
                nontrivial(mix(mix(len, prog), rot));
            }
    }

    // 2. names: a folder of logs among other things, named in every usual way
    struct Stray { const char* name; bool dir; };
    static const Stray STRAYS[] = {{"zz_notes.txt", false}, {"zzz", true}, {"20991231_235959.bak", true}, {"20991231_235959.tgz", false}, {"20991231_235959_copy", true}, {".cache", true}, {"99991231", true}, {"x20991231_235959", true}};
    const int NS = sizeof STRAYS / sizeof *STRAYS;
    for (int logs = 0; logs < 8; ++logs)
        for (int st = 0; st <= NS + 1; ++st)   // none, each one, all
        {
            if (!mine(cn++)) continue;
            ctx("folder with logs %d, stray %d", logs, st);
            std::string root = DIR + str("/n%d_%d", logs, st);
            fs::create_directories(root);
            Want latest;
            std::vector<std::pair<std::string, Want>> direct;
            for (int l = 0; l < 3; ++l) if (logs >> l & 1)
            {
                LogSpec sp;
                for (int s = 0; s < 3; ++s) sp.n[s] = l == 2 && s == 1 ? -1 : (l + s) % 3;
                if (l == 1) sp = LogSpec();   // a log without any stream
                Want w; w.chain.push_back({l, sp});
                direct.push_back({write_log(root, l, sp, ""), w});
                latest = w;
            }
            for (int k = 0; k < NS; ++k) if (st == k + 1 || st == NS + 1)
            {
                if (STRAYS[k].dir) fs::create_directories(root + "/" + STRAYS[k].name);
                else std::ofstream(root + "/" + STRAYS[k].name) << "not a log";
            }
            for (const char* tail : {"", "/", "//", "/."})
            {
                std::string p = root + tail;
                if (logs)
                {
                    cpp(p, latest, "the latest log of a folder");
                    if (strlen(tail) < 2) note(p, latest, "the latest log of a folder");
                }
                else
                {
                    cpp_refuses(p, "a folder without logs");
                    if (strlen(tail) < 2) note(p, latest, "a folder without logs", true);
                }
                for (auto& d : direct)
                {
                    cpp(d.first + tail, d.second, "a log by its name");
                    if (strlen(tail) < 2) note(d.first + tail, d.second, "a log by its name");
                }
            }
            // relative names
            char cwd[4096];
            if (!getcwd(cwd, sizeof cwd)) _exit(3);
            if (chdir(root.c_str())) _exit(3);
            for (auto& d : direct)
            {
                std::string id = fs::path(d.first).filename().string();
                for (std::string p : {id, id + "/", "./" + id, "../" + fs::path(root).filename().string() + "/" + id}) cpp(p, d.second, "a log by its relative name");
            }
            if (logs) for (const char* p : {".", "./", "../."}) { if (p[1] == '.') continue; cpp(p, latest, "the latest log of the current folder"); }
            if (chdir(cwd)) _exit(3);
            cpp_refuses(root + "/20200101_000000", "a log that is not there");
            note(root + "/20200101_000000", latest, "a log that is not there", true);
            state(mix(0x57a1, logs * 16 + st));
            nontrivial(mix(0x57a1, logs * 16 + st));
        }

    // 3. one reader opens one log after another
    for (int a = 0; a < 27; ++a)
    {
        if (!mine(cn++)) continue;
        int o[3] = {a / 9, a / 3 % 3, a % 3};
        ctx("one reader opens %d %d %d", o[0], o[1], o[2]);
        std::string root = DIR + str("/o%d", a);
        std::vector<std::pair<std::string, Want>> d;
        for (int l = 0; l < 3; ++l)
        {
            LogSpec sp;
            for (int s = 0; s < 3; ++s) sp.n[s] = (s + 1) % 3 == l ? -1 : 1 + (l + s) % 2;
            Want w; w.chain.push_back({l, sp});
            if (l == 2) w.chain.push_back(d[0].second.chain[0]);
            d.push_back({write_log(root, l, sp, l == 2 ? d[0].first : ""), w});
        }
        LogReader lr(d[o[0]].first);
        subscribe(lr);
        std::vector<int64_t> calls;
        lr.setMaintenanceCallback(1e9, [&](const UTCTime& t) { calls.push_back(t.sec); return Error::none(); });
        judge(lr, d[o[0]].second, "the first log of a reader", d[o[0]].first);
        for (int k = 1; k < 3; ++k)
        {
            ctx("one reader opens %d %d %d, step %d", o[0], o[1], o[2], k);
            lr.open(d[o[k]].first, true);
            calls.clear();
            judge(lr, d[o[k]].second, "the next log of a reader", d[o[k]].first);
            VH_EXPECT(calls.size() == 1, "the next log of a reader: maintenance from its start on", "%zu calls, %s", calls.size(), d[o[k]].first.c_str());
        }
        state(mix(0x0bee, a));
    }

    // 4. logs cut short: the Python reader returns the complete records of every stream
    for (int s = 0; s < 3; ++s)
    {
        LogSpec sp; sp.n[0] = 2; sp.n[1] = 2; sp.n[2] = 2;
        std::string probe = write_log(DIR + str("/p%d", s), 0, sp, "");
        std::string f = "/" + logKeyName(KEYS[s]) + ".log";
        long size = fs::file_size(probe + f), rec = size / 2;
        for (long cut = 0; cut <= size; ++cut)
        {
            if (!mine(cn++)) continue;
            ctx("stream %d cut at byte %ld", s, cut);
            std::string p = write_log(DIR + str("/t%d_%ld", s, cut), 0, sp, "");
            fs::resize_file(p + f, cut);
            Want w; LogSpec e = sp; e.n[s] = cut / rec; w.chain.push_back({0, e});
            note(p, w, "a log cut short");
            state(mix(mix(0xc07, s), cut)); trace(); transition();
        }
    }
    fprintf(J, "]");
    fclose(J);
    if (first()) sample("chains of up to three amended logs with every choice of streams; folders with every choice of logs and strays under every spelling");
    finish();
    _exit(0);
}
