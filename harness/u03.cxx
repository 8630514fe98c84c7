// U03: receiver bytes in, log out: what the ephemeris gatherer records.
#include "vh.h"
#include <csignal>
#include <experimental/filesystem>
#include <memory>
#include <time.h>
#include <unistd.h>
static long long clk_s = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = clk_s; ts->tv_nsec = 250000000; return 0; }
#define main gather_main
#include "tools/gather_ephemeris.cxx"
#undef main
#include "common/logging/log_reader.h"
#include "bits.h"
#include "ubxref.h"
using namespace vh;

static std::string DIR;
static const int64_t NOW = UTCTime::fromGPS(2110, 300000 * 1000).sec;  // wall clock of the runs

// ---- navigation messages, as in E01..E03
static std::vector<uint8_t> gpswords(const BitStr& d)
{
    std::vector<uint8_t> o(40);
    for (int w = 0; w < 10; ++w) { uint32_t x = (uint32_t)d.get(w * 24, 24) << 6 | 0x15; for (int k = 0; k < 4; ++k) o[w * 4 + k] = x >> (8 * k); }
    return o;
}
static Bytes gps_sf(int sf, int issue, int toes, int fill)
{
    BitStr s(240);
    for (int p = 0; p < 240; ++p) s.put(p, 1, (unsigned)(fill * 2654435761u) >> (p % 31) & 1);
    s.put(0, 8, 0x8b).put(24, 17, 300000 / 6 + sf - 1).put(43, 3, sf);
    if (sf == 1) s.put(48, 10, 2110 - 2048).put(70, 2, 0).put(168, 8, issue).put(176, 16, toes / 16);
    if (sf == 2) s.put(48, 8, issue).put(216, 16, toes / 16);
    if (sf == 3) s.put(216, 8, issue);
    return gpswords(s);
}
static Bytes swap4(const std::vector<uint8_t>& b) { Bytes o(b.size()); for (size_t i = 0; i < b.size(); ++i) o[i / 4 * 4 + 3 - i % 4] = b[i]; return o; }
static Bytes gal_page(int w, int iod, int toes, int sat, int fill)
{
    BitStr m(128);
    for (int p = 0; p < 128; ++p) m.put(p, 1, (unsigned)(fill * 2246822519u) >> (p % 31) & 1);
    m.put(0, 6, w);
    if (w >= 1 && w <= 4) m.put(6, 10, iod);
    if (w == 0) m.put(6, 2, 2).put(96, 12, 2110 - 1024).put(108, 20, 300000);
    if (w == 1) m.put(16, 14, toes / 60);
    if (w == 4) m.put(16, 6, sat).put(54, 14, toes / 60);
    if (w == 5) m.put(73, 12, 2110 - 1024).put(85, 20, 300000);
    BitStr p(256);
    p.put(0, 1, 0).put(1, 1, 0).put(128, 1, 1).put(129, 1, 0);
    for (int i = 0; i < 112; ++i) p.v[2 + i] = m.v[i];
    for (int i = 0; i < 16; ++i) p.v[130 + i] = m.v[112 + i];
    BitStr c(196);
    for (int i = 0; i < 114; ++i) c.v[i] = p.v[i];
    for (int i = 0; i < 82; ++i) c.v[114 + i] = p.v[128 + i];
    uint32_t r = 0;
    for (int i = 0; i < 196; ++i) { uint32_t top = (r >> 23 & 1) ^ c.v[i]; r = (r << 1) & 0xffffff; if (top) r ^= 0x864cfb; }
    p.put(128 + 82, 24, r);
    return swap4(p.bytes());
}
static Bytes glo_str(int k, int tb_secs_of_day, int fill, int mark)
{
    BitStr s(85);
    for (int p = 0; p < 85; ++p) s.put(p, 1, (unsigned)(fill * 3266489917u) >> (p % 31) & 1);
    s.put(0, 1, 0).put(1, 4, k);
    // 2020-06-17 (UTC 11:19:42 + 3 h); day 1..1461 of the four-year block beginning 2020-01-01
    if (k == 1) s.put(9, 5, 14).put(14, 6, 20).put(20, 1, 0);
    if (k == 2) s.put(9, 7, tb_secs_of_day / 900);
    if (k == 4) s.put(59, 11, 169);
    if (k == 5) s.put(5, 11, 169).put(49, 5, 7);
    int posn[86], q = 3;
    for (int b = 9; b <= 85; ++b) { while ((q & (q - 1)) == 0) ++q; posn[b] = q++; }
    for (int i = 0; i < 7; ++i) { int c = 0; for (int b = 9; b <= 85; ++b) if (posn[b] >> i & 1) c ^= s.v[85 - b]; s.v[85 - (i + 1)] = c; }
    int p = 0;
    for (int b = 1; b <= 85; ++b) if (b != 8) p ^= s.v[85 - b];
    s.v[85 - 8] = p;
    BitStr w(128);
    for (int i = 0; i < 85; ++i) w.v[i] = s.v[i];
    w.put(96, 16, mark);
    return swap4(w.bytes());
}
static Bytes sfrbx(int gnss, int sv, const Bytes& words, int nw = -1)
{
    Bytes p = {(uint8_t)gnss, (uint8_t)sv, 0, 0, (uint8_t)(nw < 0 ? words.size() / 4 : nw), 3, 2, 0};
    p.insert(p.end(), words.begin(), words.end());
    return p;
}
struct M { uint8_t gnss, sv, sig, slot; double pr, cp; float d; };
static Bytes rawx(int week, double tow, const std::vector<M>& ms, int claim = -1)
{
    Bytes p(16 + 32 * ms.size(), 0);
    memcpy(&p[0], &tow, 8); p[8] = week; p[9] = week >> 8; p[10] = 18; p[11] = claim < 0 ? ms.size() : claim; p[12] = 1; p[13] = 1;
    for (size_t i = 0; i < ms.size(); ++i)
    {
        uint8_t* b = &p[16 + 32 * i];
        memcpy(b, &ms[i].pr, 8); memcpy(b + 8, &ms[i].cp, 8); memcpy(b + 16, &ms[i].d, 4);
        b[20] = ms[i].gnss; b[21] = ms[i].sv; b[22] = ms[i].sig; b[23] = ms[i].slot; b[24] = 0x10; b[26] = 40; b[27] = 5; b[30] = 3;
    }
    return p;
}
static double nominal(int gnss, int sig, int slot)
{
    if (gnss == 0) return sig == 0 ? 1575.42e6 : sig == 3 || sig == 4 ? 1227.60e6 : 0;
    if (gnss == 2) return sig == 0 || sig == 1 ? 1575.42e6 : sig == 5 || sig == 6 ? 1207.14e6 : 0;
    if (gnss == 6) return sig == 0 ? 1602e6 + 562.5e3 * (slot - 7) : sig == 2 ? 1246e6 + 437.5e3 * (slot - 7) : 0;
    return 0;
}

struct Msg { int id; Bytes p; };  // RXM message
struct Want
{
    std::vector<std::string> gps, gal, glo;
    struct O { int64_t stamp; double t; M m; double f; };
    std::vector<O> obs;
};
static std::string snap(const GPSEphemeris& e) { return str("%d %d %lld %lld iode %d iodc %d %a %a %a %a %a", e.gnssID, e.sat, (long long)e.toe.sec, (long long)e.toc.sec, e.iode, e.iodc, e.m0, e.sqrta, e.af0, e.cis, e.ecc); }
static std::string snap(const GalileoEphemeris& e) { return str("%d %d %lld %lld iode %d %a %a %a %a", e.gnssID, e.sat, (long long)e.toe.sec, (long long)e.toc.sec, e.iode, e.m0, e.sqrta, e.cuc, e.w); }
static std::string snap(const GlonassEphemeris& e) { return str("%d %d %lld %lld %d %a %a %a %a %a", e.gnssID, e.sat, (long long)e.toe.sec, (long long)e.tof.sec, e.iode, e.pos[0], e.vel[1], e.acc[2], e.taun, e.gamn); }
template <typename E> static void ref(std::map<int, std::unique_ptr<E>>& w, int sat, const Bytes& m, std::vector<std::string>& out, int64_t now)
{
    if (!w[sat]) w[sat].reset(new E(sat));
    size_t n = m[4] * 4;
    Bytes words(m.begin() + 8, m.end());
    words.resize(std::max(words.size(), n), 0);
    if (!w[sat]->parse(words.data(), n)) return;
    double dt = now + 0.25 - (double)w[sat]->toe.sec;
    if (fabs(dt) > 7200) return;
    out.push_back(str("%lld: ", (long long)now) + snap(*w[sat]));
}
static void run(const std::vector<Msg>& h, int chunk)
{
    // reference: each satellite's messages, in order, go to that satellite's own decoder
    Want want;
    std::map<int, std::unique_ptr<GPSEphemeris>> g; std::map<int, std::unique_ptr<GalileoEphemeris>> l; std::map<int, std::unique_ptr<GlonassEphemeris>> r;
    int64_t now = NOW;
    bool judged = true;
    for (auto& m : h)
    {
        ++now;
        if (m.id == 0x13)
        {
            if (m.p[0] == 0) ref(g, m.p[1], m.p, want.gps, now);
            if (m.p[0] == 2) ref(l, m.p[1], m.p, want.gal, now);
            if (m.p[0] == 6) ref(r, m.p[1], m.p, want.glo, now);
        }
        else
        {
            double tow; memcpy(&tow, &m.p[0], 8);
            size_t n = (m.p.size() - 16) / 32;
            if (m.p[11] != n) { judged = false; continue; }
            for (size_t i = 0; i < n; ++i)
            {
                const uint8_t* b = &m.p[16 + 32 * i];
                M x; memcpy(&x.pr, b, 8); memcpy(&x.cp, b + 8, 8); memcpy(&x.d, b + 16, 4);
                x.gnss = b[20]; x.sv = b[21]; x.sig = b[22]; x.slot = b[23];
                double f = nominal(x.gnss, x.sig, x.slot);
                if (f > 0) want.obs.push_back({now, tow + (double)(m.p[8] + 256 * m.p[9]) * 604800, x, f});
            }
        }
    }
    // the real thing
    std::error_code ec;
    std::string root = DIR + "/u";
    fs::remove_all(root, ec);
    std::string path;
    clk_s = NOW;
    {
        async_comm::Serial serial("none", 1);
        alignas(64) static unsigned char mem[sizeof(ublox::Ubx)];
        memset(mem, 0xA5, sizeof mem);
        ublox::Ubx* u = new (mem) ublox::Ubx(serial);
        logging::Logger log(root);
        Listener lis(log);
        ObsListener ol(log);
        u->registerListener(&lis);
        u->registerListener(&ol);
        for (auto& m : h)
        {
            ++clk_s;
            Bytes f = ubx_frame(2, m.id, m.p);
            for (size_t i = 0; i < f.size(); i += chunk) u->receive_callback(&f[i], std::min<size_t>(chunk, f.size() - i));
            transition();
        }
        path = root + "/" + log.logId();
        log.close(UTCTime(clk_s, 0));
        u->~Ubx();
    }
    std::vector<std::string> gg, gl, gr;
    std::vector<std::pair<int64_t, meas::GnssObservation>> ob;
    {
        logging::LogReader lr(path);
        lr.setCallback(logging::GPS_EPH, [&](const UTCTime& t, int, logging::StreamReader& s) { std::string b = str("%lld: ", (long long)t.sec); GPSEphemeris e(0); s.get(e); gg.push_back(b + snap(e)); });
        lr.setCallback(logging::GAL_EPH, [&](const UTCTime& t, int, logging::StreamReader& s) { std::string b = str("%lld: ", (long long)t.sec); GalileoEphemeris e(0); s.get(e); gl.push_back(b + snap(e)); });
        lr.setCallback(logging::GLO_EPH, [&](const UTCTime& t, int, logging::StreamReader& s) { std::string b = str("%lld: ", (long long)t.sec); GlonassEphemeris e(0); s.get(e); gr.push_back(b + snap(e)); });
        lr.setCallback(logging::GNSS_OBS, [&](const UTCTime& t, int, logging::StreamReader& s) { int64_t b = t.sec; meas::GnssObservation o; s.get(o); ob.push_back({b, o}); });
        lr.read();
    }
    auto cmp = [&](const std::vector<std::string>& a, const std::vector<std::string>& b, const char* n) {
        VH_EXPECT(a == b, str("%s ephemerides in the log", n), "got %zu want %zu: got '%s' want '%s'", a.size(), b.size(), a.empty() ? "" : a.back().c_str(), b.empty() ? "" : b.back().c_str()); };
    cmp(gg, want.gps, "GPS"); cmp(gl, want.gal, "Galileo"); cmp(gr, want.glo, "GLONASS");
    if (judged)
    {
        expect(ob.size() == want.obs.size(), "number of observations in the log", str("got %zu want %zu", ob.size(), want.obs.size()));
        for (size_t i = 0; i < ob.size() && i < want.obs.size(); ++i)
        {
            auto& o = ob[i].second; auto& w = want.obs[i];
            expect(ob[i].first == w.stamp, "time of reception of an observation");
            double t = (double)(o.t.sec - UTCTime::fromGPS(0, 0).sec) + o.t.nsec * 1e-9;
            expect(fabs(t - w.t) < 1e-6, "time of measurement of an observation", str("got %.9f want %.9f", t, w.t));
            expect(o.gnss_id == w.m.gnss && o.sat_num == w.m.sv, "satellite of an observation", str("%d/%d want %d/%d", o.gnss_id, o.sat_num, w.m.gnss, w.m.sv));
            expect(fabs(o.freq - w.f) < 1e-3, "carrier frequency of an observation", str("system %d signal %d slot %d: got %.1f want %.1f", w.m.gnss, w.m.sig, w.m.slot, o.freq, w.f));
            expect(o.pseudorange == w.m.pr && o.carrier_phase == w.m.cp, "range and phase of an observation");
            double rr = -(double)w.m.d * 299792458.0 / w.f;
            expect(fabs(o.doppler - rr) <= 1e-9 * fabs(rr), "range rate of an observation", str("got %.9g m/s want %.9g", o.doppler, rr));
        }
    }
    eval(); trace();
    uint64_t hh = chunk;
    for (auto& m : h) { hh = mix(hh, hbytes(m.p.data(), m.p.size())); state(hh); }
    if (!gg.empty() || !gl.empty() || !gr.empty() || !ob.empty()) nontrivial(hh);
    outcome(mix(mix(gg.size(), gl.size()), mix(gr.size(), ob.size())));
}

// every way of merging the streams
static uint64_t merge_no = 0;
static void merges(const std::vector<std::vector<Msg>>& s, std::vector<size_t>& at, std::vector<Msg>& cur, const char* name, int chunk)
{
    bool end = true;
    for (size_t i = 0; i < s.size(); ++i)
        if (at[i] < s[i].size())
        {
            end = false;
            cur.push_back(s[i][at[i]]); ++at[i];
            merges(s, at, cur, name, chunk);
            --at[i]; cur.pop_back();
        }
    if (!end) return;
    if (!mine(merge_no++)) return;
    std::string d; for (auto& m : cur) d += str(" %d/%d", m.p[0], m.p[1]);
    ctx("%s in the order%s", name, d.c_str());
    run(cur, chunk);
}
static void all_merges(const char* name, const std::vector<std::vector<Msg>>& s, int chunk = 4096)
{
    std::vector<size_t> at(s.size(), 0); std::vector<Msg> cur;
    merges(s, at, cur, name, chunk);
}

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : ".";
    FILE* nul = freopen("/dev/null", "w", stdout); (void)nul;
    auto G = [](int sv, int sf, int issue, int toe = 302400) { return Msg{0x13, sfrbx(0, sv, gps_sf(sf, issue, toe, sv * 8 + sf + issue * 64))}; };
    auto L = [](int sv, int w, int iod, int toe = 300000) { return Msg{0x13, sfrbx(2, sv, gal_page(w, iod, toe, sv, sv * 8 + w + iod * 64))}; };
    auto R = [](int sv, int k, int tb = 14 * 3600 + 900, int mark = 77) { return Msg{0x13, sfrbx(6, sv, glo_str(k, tb, sv * 8 + k, mark))}; };
    auto seqG = [&](int sv, int is) { return std::vector<Msg>{G(sv, 1, is), G(sv, 2, is), G(sv, 3, is)}; };
    auto seqL = [&](int sv, int is) { std::vector<Msg> v; for (int k : {2, 4, 1, 3, 5, 0}) v.push_back(L(sv, k, is)); return v; };
    auto seqR = [&](int sv) { std::vector<Msg> v; for (int k = 1; k <= 5; ++k) v.push_back(R(sv, k)); return v; };
    Msg obs{0x15, rawx(2110, 300000.123456, {{0, 5, 0, 0, 2.2e7, 1.1e8, 1234.5f}, {6, 5, 2, 12, 2.1e7, -3.3e7, -2.25f}, {2, 5, 6, 0, 2.4e7, 9e7, 0.f}})};
    // 1. satellites whose messages arrive interleaved
    all_merges("two GPS satellites", {seqG(5, 3), seqG(9, 3)});
    all_merges("two GPS satellites, in calls of 13 bytes", {seqG(5, 3), seqG(9, 3)}, 13);
    all_merges("two issues of a GPS satellite and observations", {seqG(5, 3), seqG(5, 4), {obs}});
    all_merges("GPS and Galileo satellites of the same number", {seqG(5, 3), seqL(5, 3)});
    all_merges("Galileo satellites", {seqL(5, 3), seqL(11, 3)});
    all_merges("GLONASS satellites", {seqR(5), seqR(6)});
    all_merges("GPS, GLONASS and observations", {seqG(5, 3), seqR(5), {obs, obs}});
    if (thorough()) all_merges("GPS, GPS and GLONASS", {seqG(5, 3), seqG(9, 3), seqR(5)});
    if (thorough()) all_merges("GPS, Galileo and observations", {seqG(5, 3), seqL(5, 3), {obs, obs}});
    // 2. every sequence of messages
    {
        std::vector<Msg> T = {G(5, 1, 3), G(5, 2, 3), G(5, 3, 3), G(9, 1, 3), G(9, 2, 3), G(9, 3, 3), G(5, 2, 4), G(5, 3, 4), G(5, 1, 4), obs, Msg{0x13, sfrbx(3, 5, gps_sf(1, 3, 302400, 9))}, Msg{0x13, sfrbx(1, 5, gps_sf(2, 3, 302400, 9))},
                              Msg{0x13, sfrbx(0, 5, gps_sf(2, 3, 302400, 9), 0)}, Msg{0x13, sfrbx(2, 5, gal_page(1, 3, 300000, 5, 1), 9)}, Msg{0x13, sfrbx(6, 5, glo_str(1, 15 * 3600, 1, 7), 255)}, Msg{0x15, rawx(2110, 300000.2, {})}};
        int D = thorough() ? 4 : 3;
        for (int len = 1; len <= D; ++len)
            words(T.size(), len, [&](const std::vector<int>& w) {
                std::vector<Msg> h; for (int i : w) h.push_back(T[i]);
                ctx("messages %s", wstr(w).c_str());
                run(h, 4096);
            });
    }
    // 3. stale and future ephemerides, around the two hour limit
    uint64_t n = 0;
    int now = 300000;
    for (int d : {-86400, -10800, -7264, -7216, -7200, -7184, -3600, -16, 0, 16, 3600, 7184, 7200, 7216, 7232, 10800, 86400})
        for (int ord = 0; ord < 3; ++ord)
        {
            if (!mine(n++)) continue;
            ctx("GPS reference time %d s from now, order %d", d, ord);
            int toe = (now + d) / 16 * 16;
            std::vector<Msg> h;
            if (ord == 0) h = {G(5, 1, 3, toe), G(5, 2, 3, toe), G(5, 3, 3, toe)};
            if (ord == 1) h = {G(5, 1, 3, toe), G(5, 2, 3, toe), G(5, 3, 3, toe), G(5, 1, 4, 302400), G(5, 2, 4, 302400), G(5, 3, 4, 302400)};
            if (ord == 2) h = {G(9, 1, 3, 302400), G(5, 1, 3, toe), G(9, 2, 3, 302400), G(5, 2, 3, toe), G(9, 3, 3, 302400), G(5, 3, 3, toe)};
            run(h, 4096);
            ctx("Galileo reference time %d s from now", d);
            h.clear(); for (int k : {2, 4, 1, 3, 5, 0}) h.push_back(L(5, k, 3, (now + d) / 60 * 60));
            run(h, 4096);
        }
    for (int tb = 0; tb < 86400; tb += 900)
    {
        if (!mine(n++)) continue;
        ctx("GLONASS reference time %d", tb);
        std::vector<Msg> h; for (int k = 1; k <= 5; ++k) h.push_back(R(5, k, tb));
        run(h, 4096);
    }
    // 4. observations: every system, signal and frequency slot; every number of measurements
    for (int gn = 0; gn < 8; ++gn)
        for (int sig = 0; sig < 8; ++sig)
            for (int slot = 0; slot < 14; ++slot)
            {
                if (!mine(n++)) continue;
                ctx("observation of system %d signal %d slot %d", gn, sig, slot);
                run({Msg{0x15, rawx(2110, 300001.5, {{(uint8_t)gn, (uint8_t)(1 + slot), (uint8_t)sig, (uint8_t)slot, 2.0e7 + gn, 1e8 + sig, 100.5f + slot}, {0, 32, 0, 0, 2.5e7, 1, -4095.75f}})}}, 4096);
            }
    for (int k = 0; k <= 63; ++k)
    {
        if (!mine(n++)) continue;
        ctx("%d observations in one message", k);
        std::vector<M> ms;
        for (int i = 0; i < k; ++i) ms.push_back({(uint8_t)(i % 3 ? 0 : 2), (uint8_t)(1 + i), 0, 0, 2e7 + i * 1000.5, 1e8 + i, (float)(i - 30) * 17});
        Msg a{0x15, rawx(2110, 300001.75, ms)};
        run({a}, 4096);
        run({obs, a, obs}, 100);
    }
    for (int claim : {1, 3, 60, 61, 63, 64, 100, 127, 128, 200, 255})
        for (int have : {0, 1, 2, 60, 63})
        {
            if (!mine(n++) || claim == have) continue;
            ctx("message that announces %d observations and holds %d", claim, have);
            std::vector<M> ms(have, M{0, 7, 0, 0, 2e7, 1, 1});
            run({Msg{0x15, rawx(2110, 300001.75, ms, claim)}, obs}, 4096);
        }
    for (int week : {2110, 2109, 2048, 0}) for (double tow : {0.0, 0.000999, 300000.9999999, 604799.995})
    {
        if (!mine(n++)) continue;
        ctx("measurement time %d %.7f", week, tow);
        run({Msg{0x15, rawx(week, tow, {{0, 5, 0, 0, 2.2e7, 1.1e8, 1234.5f}})}}, 4096);
    }
    sample("subframes of two GPS satellites interleaved 5 9 5 9 9 5; one observation message in between");
    return finish();
}
