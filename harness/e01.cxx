// E01: GPS LNAV ephemeris assembly and decoding.
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include "bits.h"
#include "common/ephemeris/gps.h"
using namespace mc;
using namespace mc::ephemeris;
using namespace vh;

// A subframe as 240 data bits; words of 24 data bits + 6 parity bits, low 30 bits of a little-endian 32-bit word.
static std::vector<uint8_t> pack(const BitStr& d, int parity, int top)
{
    std::vector<uint8_t> o(40);
    for (int w = 0; w < 10; ++w)
    {
        uint32_t x = (uint32_t)d.get(w * 24, 24) << 6 | (parity & 63);
        x |= (uint32_t)(top & 3) << 30;
        for (int k = 0; k < 4; ++k) o[w * 4 + k] = x >> (8 * k);
    }
    return o;
}
struct F { const char* name; int sub, pos, len; bool sgn; double scale; std::function<double(const GPSEphemeris&)> get; };
static const double PI_ = 3.1415926535897932;
static std::vector<F> fields()
{
#define G(x) [](const GPSEphemeris& e) -> double { return (double)e.x; }
    return {
        {"code on L2", 1, 58, 2, false, 1, G(code_on_L2)}, {"ura", 1, 60, 4, false, 1, G(ura)}, {"health", 1, 64, 6, false, 1, G(health)},
        {"L2 P data flag", 1, 72, 1, false, 1, G(L2_P_data_flag)}, {"tgd", 1, 160, 8, true, pow(2, -31), G(tgd)},
        {"clock seconds", 1, 176, 16, false, 16, G(tocs)}, {"af2", 1, 192, 8, true, pow(2, -55), G(af2)},
        {"af1", 1, 200, 16, true, pow(2, -43), G(af1)}, {"af0", 1, 216, 22, true, pow(2, -31), G(af0)},
        {"crs", 2, 56, 16, true, pow(2, -5), G(crs)}, {"delta n", 2, 72, 16, true, pow(2, -43) * PI_, G(delta_n)},
        {"m0", 2, 88, 32, true, pow(2, -31) * PI_, G(m0)}, {"cuc", 2, 120, 16, true, pow(2, -29), G(cuc)},
        {"eccentricity", 2, 136, 32, false, pow(2, -33), G(ecc)}, {"cus", 2, 168, 16, true, pow(2, -29), G(cus)},
        {"sqrt a", 2, 184, 32, false, pow(2, -19), G(sqrta)}, {"ephemeris seconds", 2, 216, 16, false, 16, G(toes)},
        {"cic", 3, 48, 16, true, pow(2, -29), G(cic)}, {"omega0", 3, 64, 32, true, pow(2, -31) * PI_, G(omega0)},
        {"cis", 3, 96, 16, true, pow(2, -29), G(cis)}, {"i0", 3, 112, 32, true, pow(2, -31) * PI_, G(i0)},
        {"crc", 3, 144, 16, true, pow(2, -5), G(crc)}, {"w", 3, 160, 32, true, pow(2, -31) * PI_, G(w)},
        {"omega dot", 3, 192, 24, true, pow(2, -43) * PI_, G(omegadot)}, {"idot", 3, 224, 14, true, pow(2, -43) * PI_, G(idot)}};
}
struct Msg { BitStr s[4] = {BitStr(240), BitStr(240), BitStr(240), BitStr(240)}; };
static void common(Msg& m, int iodc, int week, int tow)
{
    for (int k = 1; k <= 3; ++k) m.s[k].put(0, 8, 0x8b).put(24, 17, tow / 6 + (k - 1)).put(43, 3, k);
    m.s[1].put(48, 10, week).put(70, 2, iodc >> 8).put(168, 8, iodc & 255);
    m.s[2].put(48, 8, iodc & 255);
    m.s[3].put(216, 8, iodc & 255);
}
static bool feed(GPSEphemeris& e, const BitStr& s, int parity = 0, int top = 0)
{
    auto b = pack(s, parity, top);
    std::unique_ptr<uint8_t[]> h(new uint8_t[40]);
    memcpy(h.get(), b.data(), 40);
    return e.parse(h.get(), 40);
}
static double raw2(const F& f, uint64_t r) { return (f.sgn ? (double)sext(r, f.len) : (double)r) * f.scale; }
static void checkfield(const GPSEphemeris& e, const F& f, uint64_t raw)
{
    double want = raw2(f, raw);
    if (!strcmp(f.name, "tgd") && sext(raw, 8) == -128) want = 0;  // "unavailable" by the interface document
    double got = f.get(e);
    expect(fabs(got - want) <= 1e-14 * fabs(want), str("GPS field %s", f.name), str("got %.17g want %.17g", got, want));
}
static void checktimes(const GPSEphemeris& e, int week10, int tow, int toes, int tocs)
{
    auto near = [&](int t) {
        int64_t w = week10 + 2048, d = t - tow;
        if (d > 302400) --w; else if (d < -302400) ++w;
        return UTCTime::fromGPS((int)w, t * 1000);
    };
    expect(e.toe == near(toes), "GPS time of ephemeris", str("got %lld want %lld", (long long)e.toe.sec, (long long)near(toes).sec));
    expect(e.toc == near(tocs), "GPS time of clock", str("got %lld want %lld", (long long)e.toc.sec, (long long)near(tocs).sec));
    expect(e.week == week10 + 2048, "GPS week", str("%d", e.week));
    expect((int)e.tow >= tow && (int)e.tow <= tow + 12, "GPS time of transmission", str("%d", (int)e.tow));
}

int main()
{
    init();
    auto fs = fields();
    // 1. every field at boundary and walking-bit values, with the rest all zero / all one / mixed, any parity bits
    uint64_t idx = 0;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i];
        std::vector<uint64_t> vals = {0, 1, (1ull << (f.len - 1)), (1ull << (f.len - 1)) - 1, (1ull << f.len) - 1, 0x5555555555555555ull & ((1ull << f.len) - 1)};
        for (int b = 0; b < f.len; ++b) { vals.push_back(1ull << b); vals.push_back(((1ull << f.len) - 1) ^ (1ull << b)); }
        for (int64_t d = -5; d <= 5; ++d) for (int q = 0; q < 4; ++q) vals.push_back((uint64_t)(((int64_t)q << (f.len > 2 ? f.len - 2 : 0)) + d) & ((1ull << f.len) - 1));
        if (f.len <= (thorough() ? 16 : 8)) for (uint64_t v = 0; v < 1ull << f.len; ++v) vals.push_back(v);
        std::sort(vals.begin(), vals.end());
        vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
        for (uint64_t v : vals)
            for (uint64_t bg : std::vector<uint64_t>{0, ~0ull, 0x3c5a3c5a3c5a3c5aull})
                for (int order = 0; order < 6; ++order)
                {
                    if (!mine(idx++)) continue;
                    Msg m;
                    for (int k = 1; k <= 3; ++k) for (int p = 0; p < 240; ++p) m.s[k].put(p, 1, bg >> (p % 61));
                    // keep both week references in one week for the field sweep
                    if (i != 5) m.s[1].put(176, 16, 300000 / 16);
                    if (i != 16) m.s[2].put(216, 16, 300000 / 16);
                    std::vector<uint64_t> raw(fs.size());
                    common(m, bg & 1023, 43, 302400);
                    m.s[f.sub].put(f.pos, f.len, v);
                    if (f.sub == 1 && f.pos <= 70 && f.pos + f.len > 48) common(m, bg & 1023, 43, 302400);
                    static const int perm[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
                    ctx("field %s raw %llx background %llx order %d", f.name, (unsigned long long)v, (unsigned long long)bg, order);
                    GPSEphemeris e(7);
                    bool r = false;
                    for (int k = 0; k < 3; ++k)
                    {
                        r = feed(e, m.s[perm[order][k]], (int)(bg >> 3), (int)bg);
                        if (k < 2) expect(!r, "GPS ephemeris complete before all three subframes");
                    }
                    expect(r, "GPS ephemeris complete after all three subframes of one issue");
                    if (!r) continue;
                    for (auto& g : fs) checkfield(e, g, m.s[g.sub].get(g.pos, g.len));
                    expect(e.iode == (int)(bg & 255) && e.iodc == (int)(bg & 1023), "GPS issue of data");
                    expect(e.fit_interval_flag == (m.s[2].get(232, 1) ? 0 : 4), "GPS fit interval");
                    expect(e.sat == 7 && e.gnssID == GnssID::GPS, "GPS satellite identity");
                    int toes = m.s[2].get(216, 16) * 16, tocs = m.s[1].get(176, 16) * 16;
                    if (toes < 604800 && tocs < 604800) checktimes(e, 43, 302400, toes, tocs);
                    eval();
                    nontrivial(mix(mix(i, v), mix(bg, order)));
                }
    }
    // 2. weeks, week rollover between transmission and reference time
    for (int week : {0, 1, 43, 511, 1022, 1023})
        for (int tow : {0, 6, 7200, 302394, 302400, 302406, 590400, 597600, 604794})
            for (int dt : {-14400, -7200, -3600, -16, 0, 16, 3600, 7200, 14400})
                for (int dc : {0, -7200, 7200})
                {
                    if (!mine(idx++)) continue;
                    auto wrap = [](int t) { return ((t % 604800) + 604800) % 604800 / 16 * 16; };
                    int toes = wrap(tow + dt), tocs = wrap(tow + dt + dc);
                    // weeks before the first or after the last of the ten-bit counter are out of reach
                    if ((week == 0 && (tow < 30000)) || (week == 1023 && tow > 570000)) continue;
                    Msg m;
                    common(m, 5, week, tow);
                    m.s[1].put(176, 16, tocs / 16);
                    m.s[2].put(216, 16, toes / 16);
                    ctx("week %d tow %d toe %d toc %d", week, tow, toes, tocs);
                    for (int order = 0; order < 2; ++order)
                    {
                        GPSEphemeris e(7);
                        bool r = order ? (feed(e, m.s[3]), feed(e, m.s[1]), feed(e, m.s[2])) : (feed(e, m.s[1]), feed(e, m.s[2]), feed(e, m.s[3]));
                        expect(r, "GPS ephemeris complete after all three subframes of one issue");
                        if (r) checktimes(e, week, tow, toes, tocs);
                        eval();
                        nontrivial(mix(mix(week, tow), mix(toes, tocs)) + order);
                    }
                }
    // 3. every sequence of subframes from three issues (one of them issue 0), other subframes, damaged ones and short buffers
    struct Tok { std::string n; int sub, issue; int kind; };
    std::vector<Tok> toks;
    int issues[3] = {0x17, 0x2c, 0};
    std::vector<Msg> ms(3);
    for (int i = 0; i < 3; ++i)
    {
        common(ms[i], issues[i] | (i << 8), 43, 302400);
        for (auto& f : fs) if (!(f.sub == 1 && (f.pos == 176)) && !(f.sub == 2 && f.pos == 216)) ms[i].s[f.sub].put(f.pos, f.len, (0x1111111111111111ull * (i + 1)) & ((1ull << f.len) - 1));
        ms[i].s[1].put(176, 16, (300000 + 16 * i * 450) / 16);
        ms[i].s[2].put(216, 16, (300000 + 16 * i * 450) / 16);
        for (int s = 1; s <= 3; ++s) toks.push_back({str("%d%c", s, "AB0"[i]), s, i, 0});
    }
    toks.push_back({"4A", 4, 0, 1});
    for (int q = 1; q <= 3; ++q) for (int i = 0; i < 2; ++i) toks.push_back({str("%d%c with a bad preamble", q, "AB"[i]), q, i, 2});
    toks.push_back({"short", 3, 0, 3});
    // subframes of issues that differ in a single bit (thorough: in any way), in every distribution and order
    {
        std::vector<std::pair<int, int>> pairs;
        for (int b : {0, 0xff, 0x55, 0xaa, 0x0f, 0x80}) for (int j = 0; j < 8; ++j) pairs.push_back({b, b ^ 1 << j});
        if (thorough()) for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (a != b) pairs.push_back({a, b});
        static const int ord[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
        for (auto& pr : pairs)
            for (int m = 0; m < 8; ++m)
                for (auto& o : ord)
                {
                    if (!mine(idx++)) continue;
                    ctx("issues %#x and %#x, subframes of the second: mask %x, order %d%d%d", pr.first, pr.second, m, o[0], o[1], o[2]);
                    GPSEphemeris e(7);
                    bool r = false;
                    for (int k : o)
                    {
                        BitStr w = ms[0].s[k];
                        const int is = m >> (k - 1) & 1 ? pr.second : pr.first;
                        if (k == 1) w.put(70, 2, 2).put(168, 8, is);
                        if (k == 2) w.put(48, 8, is);
                        if (k == 3) w.put(216, 8, is);
                        r = feed(e, w);
                    }
                    expect(r == (m == 0 || m == 7), r ? "GPS ephemeris reported from different issues of data" : "GPS ephemeris not reported although all three subframes of one issue arrived in a row");
                    if (r) expect(e.iode == (m ? pr.second : pr.first) && e.iodc == (0x200 | (m ? pr.second : pr.first)), "GPS issue of data");
                    eval();
                    nontrivial(mix(mix(pr.first, pr.second), mix(m, 0x99)));
                }
    }
    int maxlen = thorough() ? 7 : 5;
    for (int len = 1; len <= maxlen; ++len)
        words((int)toks.size(), len, [&](const std::vector<int>& w) {
            std::string desc;
            for (int t : w) desc += toks[t].n + " ";
            ctxs(desc);
            GPSEphemeris e(7);
            int last[4] = {-1, -1, -1, -1};
            std::vector<std::pair<int, int>> run;  // valid subframes since the last report
            for (size_t k = 0; k < w.size(); ++k)
            {
                const Tok& t = toks[w[k]];
                bool r;
                if (t.kind == 3)
                {
                    auto b = pack(ms[0].s[3], 0, 0);
                    std::unique_ptr<uint8_t[]> h(new uint8_t[39]);
                    memcpy(h.get(), b.data(), 39);
                    r = e.parse(h.get(), 39);
                }
                else if (t.kind == 1) { BitStr s = ms[0].s[2]; s.put(43, 3, 4); r = feed(e, s); }
                else if (t.kind == 2) 
                {
                    // the preamble is damaged, and everything else but the issue of data differs
                    BitStr s = ms[t.issue].s[t.sub];
                    for (int b = 48; b < 240; ++b) s.v[b] ^= 1;
                    if (t.sub == 1) s.put(70, 2, issues[t.issue] >> 8 | t.issue).put(168, 8, issues[t.issue] & 255);
                    if (t.sub == 2) s.put(48, 8, issues[t.issue] & 255);
                    if (t.sub == 3) s.put(216, 8, issues[t.issue] & 255);
                    s.put(0, 8, 0x8a).put(24, 17, 100799);
                    r = feed(e, s);
                }
                else { r = feed(e, ms[t.issue].s[t.sub]); last[t.sub] = t.issue; run.push_back({t.sub, t.issue}); }
                transition();
                uint64_t h = mix(mix(mix(last[1] + 1, last[2] + 1), last[3] + 1), run.size() > 3 ? 4 : run.size());
                state(h);
                outcome(mix(h, r));
                if (r)
                {
                    expect(t.kind == 0, "a foreign, damaged or short subframe completes an ephemeris");
                    bool same = last[1] >= 0 && last[1] == last[2] && last[2] == last[3];
                    expect(same, "GPS ephemeris reported from different issues of data", str("subframe issues %d %d %d", last[1], last[2], last[3]));
                    if (same)
                    {
                        for (auto& f : fs) checkfield(e, f, ms[last[1]].s[f.sub].get(f.pos, f.len));
                        expect(e.iodc == (issues[last[1]] | (last[1] << 8)) && e.iode == issues[last[1]], "GPS issue of data");
                        checktimes(e, 43, 302400, 300000 + 16 * last[1] * 450, 300000 + 16 * last[1] * 450);
                    }
                    run.clear();
                }
                else if (t.kind == 0 && run.size() >= 3)
                {
                    auto a = run[run.size() - 1], b = run[run.size() - 2], c = run[run.size() - 3];
                    bool all3 = a.second == b.second && b.second == c.second && a.first != b.first && b.first != c.first && a.first != c.first;
                    expect(!all3, "GPS ephemeris not reported although all three subframes of one issue arrived in a row");
                }
                expect(e.sat == 7 && e.gnssID == GnssID::GPS, "GPS satellite identity");
            }
            trace();
            if (len == maxlen) sample(desc);
        });
    return finish();
}
