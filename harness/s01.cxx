// S01: a satellite's almanac keeps the latest ephemeris for every reference time, whatever the order they arrive in, and always
// answers with the one whose reference time is closest.
#include "vh.h"
#include <sys/wait.h>
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/satellite/satellite.h"
using namespace mc;
using namespace mc::satellite;
using namespace vh;
// reference times: two hours apart, close together, and identical but for a nanosecond; before and after 1970
static const UTCTime TOE[7] = {UTCTime(1600000000, 0), UTCTime(1600007200, 0), UTCTime(1600000000, 1), UTCTime(1599992800, 999999999), UTCTime(1600003600, 0), UTCTime(1600000001, 0), UTCTime(-7200, 500000000)};
static void tag(ephemeris::GPSEphemeris& e, int v) { e.toes = v; }
static void tag(ephemeris::GalileoEphemeris& e, int v) { e.toes = v; }
static void tag(ephemeris::GlonassEphemeris& e, int v) { e.iode = v; }
static int tag(const ephemeris::GPSEphemeris& e) { return e.toes; }
static int tag(const ephemeris::GalileoEphemeris& e) { return e.toes; }
static int tag(const ephemeris::GlonassEphemeris& e) { return e.iode; }

static double adiff(const UTCTime& a, const UTCTime& b) { return std::fabs((double)(a.sec - b.sec) + 1e-9 * (double)(a.nsec - b.nsec)); }

template <typename E> void explore(uint8_t gnss, const char* nm, int k, int N)
{
    std::vector<UTCTime> Q;
    for (int i = 0; i < 7; ++i) for (int64_t d : {-4000000000000ll, -3600000000000ll, -1800000000000ll, -600000000ll, -1ll, 0ll, 1ll, 400000000ll, 1800000000000ll, 4000000000000ll}) Q.push_back(UTCTime(TOE[i].sec, TOE[i].nsec + d));
    Q.push_back(UTCTime(0, 0)); Q.push_back(UTCTime(4000000000ll, 0));
    for (int n = 1; n <= N; ++n)
        words(k, n, [&](const std::vector<int>& w) {
            Satellite<E> sat(gnss, 17);
            std::map<std::pair<int64_t, int64_t>, int> model;
            E e(17);
            ctx("%s ephemerides arrive %s", nm, wstr(w).c_str());
            for (size_t i = 0; i < w.size(); ++i)
            {
                e.gnssID = gnss; e.sat = 17; e.toe = TOE[w[i]]; tag(e, 100 + (int)i);
                VH_EXPECT(sat.addEph(e).ok(), "an ephemeris of this satellite is accepted", "-");
                model[{TOE[w[i]].sec, TOE[w[i]].nsec}] = 100 + (int)i;
                transition();
            }
            uint64_t h = hstr(nm);
            for (auto& m : model) h = mix(h, mix(m.first.first * 3 + m.first.second, m.second));
            state(h);
            VH_EXPECT(sat.almanacSize() == (int)model.size(), "one ephemeris per reference time", "%d for %zu", sat.almanacSize(), model.size());
            const Satellite<E>& cs = sat;
            for (auto& q : Q)
            {
                const E& c = cs.findClosestEphemeris(q);
                double best = 1e300;
                for (auto& m : model) best = std::min(best, adiff(q, UTCTime(m.first.first, m.first.second)));
                // distances are compared as seconds in double precision: a nanosecond at these magnitudes may round away
                double d = adiff(q, c.toe), tol = 1e-9 + best * 1e-15;
                VH_EXPECT(d <= best + tol, "the closest ephemeris is chosen", "%s query %lld.%09lld: %.9f s away, best %.9f", nm, (long long)q.sec, (long long)q.nsec, d, best);
                auto it = model.find({c.toe.sec, c.toe.nsec});
                VH_EXPECT(it != model.end() && it->second == tag(c), "the latest ephemeris for a reference time is the one kept", "%s", nm);
                outcome(mix(tag(c), w.size()));
            }
            trace();
        });
}
// a well-filled almanac, then every sequence of late, repeated and in-between ephemerides
template <typename E> void filled(uint8_t gnss, const char* nm, int fill, int N)
{
    int K = 2 * fill + 1;   // before, at and between all of them, after
    for (int n = 1; n <= N; ++n)
        words(K, n, [&](const std::vector<int>& w) {
            ctx("%s almanac of %d, then %s", nm, fill, wstr(w).c_str());
            Satellite<E> sat(gnss, 17);
            std::map<int64_t, int> model;
            E e(17);
            auto add = [&](int64_t toe, int v) {
                e.gnssID = gnss; e.sat = 17; e.toe = UTCTime(1600000000 + toe, 0); tag(e, v);
                sat.addEph(e); model[toe] = v; transition();
            };
            for (int i = 0; i < fill; ++i) add(7200 * i, i);
            for (size_t i = 0; i < w.size(); ++i) add(3600 * (w[i] - 1), 100 + (int)i);
            uint64_t h = mix(hstr(nm), fill);
            for (auto& m : model) h = mix(h, m.first * 1000 + m.second);
            state(h);
            VH_EXPECT(sat.almanacSize() == (int)model.size(), "one ephemeris per reference time", "%d for %zu", sat.almanacSize(), model.size());
            const Satellite<E>& cs = sat;
            for (auto& m : model) for (int d : {-1000, 0, 1000})
            {
                const E& c = cs.findClosestEphemeris(UTCTime(1600000000 + m.first + d, 500));
                VH_EXPECT(c.toe == UTCTime(1600000000 + m.first, 0), "the closest ephemeris is chosen", "asked %d s from toe %lld", d, (long long)m.first);
                if (c.toe == UTCTime(1600000000 + m.first, 0)) VH_EXPECT(tag(c) == m.second, "the latest ephemeris for a reference time is the one kept", "toe %lld", (long long)m.first);
            }
            trace();
        });
}
static int forked(const std::function<void()>& f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (!p) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); f(); _exit(0); }
    int st; waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
template <typename E> void refuse(uint8_t gnss, const char* nm)
{
    for (int g = 0; g < 8; ++g)
        for (int s = 15; s < 20; ++s)
        {
            ctx("%s satellite 17 gets an ephemeris of system %d satellite %d", nm, g, s);
            int rc = forked([&] { Satellite<E> sat(gnss, 17); E e(17); e.gnssID = g; e.sat = s; e.toe = TOE[0]; sat.addEph(e); });
            VH_EXPECT((rc == 0) == (g == gnss && s == 17), "an ephemeris of another satellite is refused", "rc %d", rc);
            transition();
        }
    ctx("%s empty almanac", nm);
    VH_EXPECT(forked([&] { Satellite<E> sat(gnss, 17); sat.findClosestEphemeris(TOE[0]); }) != 0, "an empty almanac is refused", "-");
}
int main()
{
    init();
    int N = thorough() ? 7 : 6;
    explore<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS", 7, N - 1);
    explore<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS", 4, N);
    explore<ephemeris::GalileoEphemeris>(GnssID::Galileo, "Galileo", 7, N - 2);
    explore<ephemeris::GlonassEphemeris>(GnssID::Glonass, "Glonass", 7, N - 1);
    for (int f : {9, 17, 40}) filled<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS", f, f == 9 ? 3 : 2);
    filled<ephemeris::GlonassEphemeris>(GnssID::Glonass, "Glonass", 20, 2);
    filled<ephemeris::GalileoEphemeris>(GnssID::Galileo, "Galileo", 20, 2);
    if (first())
    {
        refuse<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS");
        refuse<ephemeris::GalileoEphemeris>(GnssID::Galileo, "Galileo");
        refuse<ephemeris::GlonassEphemeris>(GnssID::Glonass, "Glonass");
    }
    sample("ephemerides with reference times [4,0,2,0]: almanac {0: 4th message, 2, 4}; queries at and between all of them");
    finish();
}
