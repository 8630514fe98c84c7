// L02: a log cut short at any byte still gives back every record that is complete, in order, and reading ends.
#include "vh.h"
#include <fstream>
#include <set>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
using namespace mc;
using namespace mc::logging;
using namespace vh;
namespace fs = std::experimental::filesystem;
static std::string DIR;
static const int KA = IMU_SAMPLE, KB = 7002;
static const UTCTime TS(1599999999, 250000000);

static meas::ImuSample imu(int id)
{
    meas::ImuSample s; s.t = UTCTime(1000 + id, 7 * id);
    s.accel << id + 0.125, -id, 3; s.gyro << -0.5 * id, 2, 1e30;
    return s;
}
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), {}); }
static void spit(const std::string& p, const std::string& d, size_t n) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), n); }

struct Got { std::vector<std::pair<UTCTime, bool>> a, b; };

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/l02";
    fs::create_directories(DIR);
    int MAXR = thorough() ? 4 : 3;
    uint64_t cn = 0;
    // order: which stream's record comes first in time
    for (int na = 0; na <= MAXR; ++na)
        for (int nb = 0; nb <= MAXR; ++nb)
            for (int order = 0; order < 3; ++order)
            {
                std::string root = DIR + str("/w%d%d%d", na, nb, order), path;
                std::vector<UTCTime> ta, tb;
                {
                    Logger lg(TS, root);
                    lg.initStream<meas::ImuSample>(KA, {"imu"});
                    lg.initStream<uint8_t, double, Vec3f>(KB, {"a", "b", "c"});
                    for (int i = 0; i < na; ++i) { ta.push_back(UTCTime(TS.sec + 10 * i + (order == 1 ? 5 : 0), i)); lg.log(KA, ta.back(), imu(i + 1)); }
                    for (int i = 0; i < nb; ++i) { tb.push_back(UTCTime(TS.sec + 10 * i + (order == 2 ? 5 : 0), i)); lg.log(KB, tb.back(), (uint8_t)(i + 1), (double)(i + 0.5), Vec3f(i, i + 1, i + 2)); }
                    path = root + "/" + lg.logId();
                    lg.close(TS);
                }
                std::string fa = path + "/" + logKeyName(KA) + ".log", fb = path + "/" + logKeyName(KB) + ".log";
                std::string da = slurp(fa), db = slurp(fb);
                size_t ra = na ? da.size() / na : 1, rb = nb ? db.size() / nb : 1;
                if (first()) VH_EXPECT(da.size() == na * ra && db.size() == nb * rb, "records have one size", "%zu %zu", da.size(), db.size());
                long astart = -1, bstart = -1;   // -1: the file is missing altogether
                for (long ca = astart; ca <= (long)da.size(); ++ca)
                    for (long cb = bstart; cb <= (long)db.size(); ++cb)
                    {
                        // quick: all single cuts, all pairs for the smaller logs; otherwise pairs near the record ends
                        bool all_pairs = (na <= 1 && nb <= 2) || thorough();
                        long ea = ca < 0 || !na ? 0 : ca % (long)ra, eb = cb < 0 || !nb ? 0 : cb % (long)rb;
                        bool near_a = ca < 0 || ea <= 1 || ea == (long)ra - 1 || ea == 8 || ea == 16 || ea == 17, near_b = cb < 0 || eb <= 1 || eb == (long)rb - 1 || eb == 8 || eb == 16 || eb == 17;
                        if (!all_pairs && !((ca == (long)da.size() || near_a) && (cb == (long)db.size() || near_b)) && ca != (long)da.size() && cb != (long)db.size()) continue;
                        if (!mine(cn++)) continue;
                        ctx("records %d/%d order %d, cut at byte %ld of %zu and %ld of %zu", na, nb, order, ca, da.size(), cb, db.size());
                        if (ca < 0) fs::remove(fa); else spit(fa, da, ca);
                        if (cb < 0) fs::remove(fb); else spit(fb, db, cb);
                        Got g;
                        {
                            LogReader lr(path);
                            lr.setCallback(KA, [&](const UTCTime& t, int key, StreamReader& r) {
                                meas::ImuSample s = imu(40), e = imu(g.a.size() + 1);
                                UTCTime st = t;
                                r.get(s);
                                g.a.push_back({st, key == KA && s.t == e.t && s.accel == e.accel && s.gyro == e.gyro});
                                if (g.a.size() > 20) { violation("reading a shortened log does not end", vh::g().sh->ctx); finish(); }
                            });
                            lr.setCallback(KB, [&](const UTCTime& t, int key, StreamReader& r) {
                                uint8_t a = 77; double b = -1; Vec3f c(9, 9, 9);
                                UTCTime st = t;
                                r.get(a, b, c);
                                size_t i = g.b.size();
                                g.b.push_back({st, key == KB && a == i + 1 && b == i + 0.5 && c == Vec3f(i, i + 1, i + 2)});
                                if (g.b.size() > 20) { violation("reading a shortened log does not end", vh::g().sh->ctx); finish(); }
                            });
                            lr.read();
                        }
                        transition(g.a.size() + g.b.size() + 2);
                        trace();
                        state(mix(mix(mix(na, nb), order * 1000003 + ca), cb));
                        outcome(mix(mix(g.a.size(), g.b.size()), (ea > 0) * 2 + (eb > 0)));
                        auto judge = [&](const std::vector<std::pair<UTCTime, bool>>& got, const std::vector<UTCTime>& t, long cut, size_t rec, const char* nm) {
                            size_t whole = cut < 0 ? 0 : t.empty() ? 0 : cut / rec;
                            bool torn = cut >= 0 && !t.empty() && cut % rec;
                            if (got.size() < whole) { violation("a complete record is lost", str("stream %s: %zu of %zu @ %s", nm, got.size(), whole, vh::g().sh->ctx)); return; }
                            for (size_t i = 0; i < whole; ++i) VH_EXPECT(got[i].first == t[i] && got[i].second, "a complete record is not returned as written", "stream %s record %zu", nm, i);
                            VH_EXPECT(got.size() <= whole + (torn ? 1 : 0), "records are made up", "stream %s: %zu for %zu", nm, got.size(), whole);
                            if (got.size() > whole) VH_EXPECT(got[whole].first == t[whole], "a record with an incomplete time stamp is delivered", "stream %s", nm);
                        };
                        judge(g.a, ta, ca, ra, "A");
                        judge(g.b, tb, cb, rb, "B");
                        // by stream, without callbacks
                        if (ca >= 0 && cb == (long)db.size())
                        {
                            LogReader lr(path);
                            for (int i = 0; na && i < ca / (long)ra; ++i)
                            {
                                auto x = lr.getNext<meas::ImuSample>(KA);
                                VH_EXPECT(x.t == ta[i] && std::get<0>(x.data).t == imu(i + 1).t, "getNext on a shortened log", "record %d", i);
                            }
                        }
                    }
                std::error_code ec;
                fs::remove_all(root, ec);
            }
    if (first()) sample("two streams of up to N records, each file cut at every byte (and missing altogether)");
    finish();
}
