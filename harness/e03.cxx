// E03: GLONASS string assembly and decoding.
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include "bits.h"
#include "common/ephemeris/glonass.h"
using namespace mc;
using namespace mc::ephemeris;
using namespace vh;

// index of ICD bit b (85..1) is 85-b. Extended Hamming code of the interface document: data bits 9.. take the
// non-power-of-two positions 3,5,6,7,9,..; check bits 1..7; bit 8 is the overall parity.
static void hamming(BitStr& s)
{
    int posn[86], q = 3;
    for (int b = 9; b <= 85; ++b) { while ((q & (q - 1)) == 0) ++q; posn[b] = q++; }
    for (int i = 0; i < 7; ++i)
    {
        int c = 0;
        for (int b = 9; b <= 85; ++b) if (posn[b] >> i & 1) c ^= s.v[85 - b];
        s.v[85 - (i + 1)] = c;
    }
    int p = 0;
    for (int b = 1; b <= 85; ++b) if (b != 8) p ^= s.v[85 - b];
    s.v[85 - 8] = p;
}
static std::vector<uint8_t> pack(const BitStr& s, int mark, int pad)
{
    BitStr w(128);
    for (int i = 0; i < 85; ++i) w.v[i] = s.v[i];
    w.put(85, 11, pad).put(96, 16, mark).put(112, 16, pad);
    auto b = w.bytes();
    std::vector<uint8_t> o(16);
    for (int i = 0; i < 16; ++i) o[i / 4 * 4 + 3 - i % 4] = b[i];
    return o;
}
static bool feed(GlonassEphemeris& e, const BitStr& s, int mark, int pad = 0, size_t n = 16)
{
    auto b = pack(s, mark, pad);
    std::unique_ptr<uint8_t[]> h(new uint8_t[n]);
    memcpy(h.get(), b.data(), std::min<size_t>(n, 16));
    return e.parse(h.get(), n);
}
struct F { const char* name; int s, pos, len; bool sgn; double scale; std::function<double(const GlonassEphemeris&)> get; };
#define G(x) [](const GlonassEphemeris& e) -> double { return (double)e.x; }
#define G_vel(i) G(vel[i])
#define G_acc(i) G(acc[i])
#define G_pos(i) G(pos[i])
static std::vector<F> fields()
{
    double p20 = 1e3 * pow(2, -20), p30 = 1e3 * pow(2, -30), p11 = 1e3 * pow(2, -11);
    return {
        {"velocity x", 1, 21, 24, true, p20, G_vel(0)}, {"acceleration x", 1, 45, 5, true, p30, G_acc(0)}, {"position x", 1, 50, 27, true, p11, G_pos(0)},
        {"velocity y", 2, 21, 24, true, p20, G_vel(1)}, {"acceleration y", 2, 45, 5, true, p30, G_acc(1)}, {"position y", 2, 50, 27, true, p11, G_pos(1)},
        {"velocity z", 3, 21, 24, true, p20, G_vel(2)}, {"acceleration z", 3, 45, 5, true, p30, G_acc(2)}, {"position z", 3, 50, 27, true, p11, G_pos(2)},
        {"health", 2, 5, 3, false, 1, G(svh)}, {"interval index", 2, 9, 7, false, 1, G(iode)}, {"relative frequency bias", 3, 6, 11, true, pow(2, -40), G(gamn)},
        {"clock bias", 4, 5, 22, true, pow(2, -30), G(taun)}, {"L1-L2 delay", 4, 27, 5, true, pow(2, -30), G(dtaun)},
        {"age", 4, 32, 5, false, 1, G(age)}, {"accuracy", 4, 52, 4, false, 1, G(sva)}, {"slot", 4, 70, 5, false, 1, G(slot)}};
}
struct Msg { std::vector<BitStr> s = std::vector<BitStr>(7, BitStr(85)); };
static void finishmsg(Msg& m) { for (int k = 1; k <= 6; ++k) { m.s[k].put(0, 1, 0).put(1, 4, k); hamming(m.s[k]); } }
static int64_t days(int y, int m, int d)
{
    y -= m <= 2;
    int64_t era = y / 400;
    unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
static void settime(Msg& m, int n4, int nt, int na, int tb, int h, int mi, int half)
{
    m.s[1].put(9, 5, h).put(14, 6, mi).put(20, 1, half);
    m.s[2].put(9, 7, tb);
    m.s[4].put(59, 11, nt);
    m.s[5].put(5, 11, na).put(49, 5, n4);
}
static void checktimes(const GlonassEphemeris& e, int n4, int nt, int tb, int h, int mi, int half)
{
    int64_t day0 = (days(1996 + 4 * (n4 - 1), 1, 1) + nt - 1) * 86400 - 3 * 3600;
    expect(e.toe.sec == day0 + tb * 900 && e.toe.nsec == 0, "GLONASS time of ephemeris", str("got %lld want %lld", (long long)e.toe.sec, (long long)(day0 + tb * 900)));
    int64_t tf = day0 + h * 3600 + mi * 60 + half * 30;
    expect(e.tof.sec == tf && e.tof.nsec == 0, "GLONASS time of frame", str("got %lld want %lld", (long long)e.tof.sec, (long long)tf));
}
static double dec(const F& f, uint64_t r) { return (f.sgn ? (double)smag(r, f.len) : (double)r) * f.scale; }
static void checkfield(const GlonassEphemeris& e, const F& f, const BitStr& s)
{
    double want = dec(f, s.get(f.pos, f.len)), got = f.get(e);
    expect(fabs(got - want) <= 1e-14 * fabs(want), str("GLONASS field %s", f.name), str("got %.17g want %.17g", got, want));
}
static std::string snap(const GlonassEphemeris& e, const std::vector<F>& fs)
{
    std::string s;
    for (auto& f : fs) s += str("%a,", f.get(e));
    return s + str("%lld,%lld", (long long)e.toe.sec, (long long)e.tof.sec);
}

int main()
{
    init();
    auto fs = fields();
    static const int perm[6][5] = {{1, 2, 3, 4, 5}, {4, 3, 2, 1, 5}, {2, 4, 1, 3, 5}, {3, 1, 4, 2, 5}, {4, 1, 2, 3, 5}, {1, 4, 3, 2, 5}};
    uint64_t idx = 0;
    // 1. fields
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i];
        std::vector<uint64_t> vals = {0, 1, (1ull << (f.len - 1)), (1ull << (f.len - 1)) - 1, (1ull << f.len) - 1};
        for (int b = 0; b < f.len; ++b) { vals.push_back(1ull << b); vals.push_back(((1ull << f.len) - 1) ^ (1ull << b)); }
        for (int64_t d = -5; d <= 5; ++d) for (int q = 0; q < 4; ++q) vals.push_back((uint64_t)(((int64_t)q << (f.len > 2 ? f.len - 2 : 0)) + d) & ((1ull << f.len) - 1));
        if (f.len <= (thorough() ? 16 : 8)) for (uint64_t v = 0; v < 1ull << f.len; ++v) vals.push_back(v);
        std::sort(vals.begin(), vals.end());
        vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
        for (uint64_t v : vals)
            for (uint64_t bg : std::vector<uint64_t>{0, ~0ull, 0x3c5a3c5a3c5a3c5aull})
                for (int o = 0; o < 6; ++o)
                {
                    if (!mine(idx++)) continue;
                    Msg m;
                    for (int k = 1; k <= 5; ++k) for (int p = 0; p < 77; ++p) m.s[k].put(p, 1, bg >> (p % 61));
                    settime(m, 6, 1297, 1290, 47, 11, 45, 1);
                    m.s[f.s].put(f.pos, f.len, v);
                    finishmsg(m);
                    ctx("string %d field %s raw %llx background %llx order %d", f.s, f.name, (unsigned long long)v, (unsigned long long)bg, o);
                    GlonassEphemeris e(4);
                    bool r = false;
                    for (int k = 0; k < 5; ++k)
                    {
                        r = feed(e, m.s[perm[o][k]], 0x0d00, (int)(bg & 0x7ff));
                        if (k < 4) expect(!r, "GLONASS ephemeris complete before all five strings");
                    }
                    expect(r, "GLONASS ephemeris complete after all five strings of one frame");
                    eval();
                    nontrivial(mix(mix(i, v), mix(bg, o)));
                    if (!r) continue;
                    for (auto& g : fs) checkfield(e, g, m.s[g.s]);
                    expect(e.sat == 4 && e.gnssID == GnssID::Glonass, "GLONASS satellite identity");
                    checktimes(e, 6, 1297, m.s[2].get(9, 7), 11, 45, 1);
                }
    }
    // 2. times
    for (int n4 : {1, 2, 6, 7, 8, 17})
        for (int nt : {1, 59, 60, 61, 365, 366, 367, 731, 1096, 1461})
            for (int tb : {0, 1, 47, 95})
                for (int h : {0, 11, 23})
                    for (int mi : {0, 59})
                        for (int half : {0, 1})
                            for (int na : {1, 1461})
                            {
                                if (!mine(idx++)) continue;
                                Msg m;
                                settime(m, n4, nt, na, tb, h, mi, half);
                                finishmsg(m);
                                ctx("N4 %d NT %d NA %d tb %d tk %d:%d:%d", n4, nt, na, tb, h, mi, half * 30);
                                for (int o = 0; o < 6; ++o)
                                {
                                    GlonassEphemeris e(4);
                                    bool r = false;
                                    for (int k = 0; k < 5; ++k) r = feed(e, m.s[perm[o][k]], 77);
                                    expect(r, "GLONASS ephemeris complete after all five strings of one frame");
                                    if (r) checktimes(e, n4, nt, tb, h, mi, half);
                                    eval();
                                    nontrivial(mix(mix(mix(n4, nt), mix(tb, h)), mix(mix(mi, half), mix(na, o))));
                                }
                            }
    // 3. sequences over two superframes and unrelated, damaged and short strings
    std::vector<Msg> ms(2);
    for (int i = 0; i < 2; ++i)
    {
        for (auto& f : fs) ms[i].s[f.s].put(f.pos, f.len, (0x1111111111111111ull * (i + 1)) & ((1ull << f.len) - 1));
        settime(ms[i], 6 + i, 1297 - i, 1200, 47 + i, 11 + i, 45, i);
        finishmsg(ms[i]);
    }
    int markset[6][2] = {{0x0d00, 0x0d01}, {0x0d01, 0x0e01}, {0x0000, 0x8000}, {0x0d01, 0x0d00}, {0x0e01, 0x0d01}, {0x8000, 0x0000}}; int* marks = markset[0];
    struct Tok { std::string n; int s, fr, kind; };
    std::vector<Tok> toks;
    for (int k = 1; k <= 5; ++k) for (int i = 0; i < 2; ++i) toks.push_back({str("%d%c", k, "AB"[i]), k, i, 0});
    toks.push_back({"6A", 6, 0, 1});
    toks.push_back({"2B damaged", 2, 1, 2});
    toks.push_back({"5B short", 5, 1, 3});
    int T = (int)toks.size();
    auto seq = [&](const std::vector<int>& w, bool smp) {
        std::string desc;
        for (int t : w) desc += toks[t].n + ", ";
        ctxs(desc);
        GlonassEphemeris e(4);
        int have[6] = {-1, -1, -1, -1, -1, -1};  // superframe of the string held, -1 none
        std::vector<std::pair<int, int>> run;
        for (size_t k = 0; k < w.size(); ++k)
        {
            const Tok& t = toks[w[k]];
            BitStr s = ms[t.fr].s[t.s];
            if (t.kind == 2) { s.v[30] ^= 1; s.v[60] ^= 1; }
            bool r = feed(e, s, marks[t.fr], 0, t.kind == 3 ? 15 : 16);
            transition();
            if (t.kind == 0) { have[t.s] = t.fr; run.push_back({t.s, t.fr}); }
            else if (t.kind == 1) run.clear();
            uint64_t h = run.size() > 5 ? 6 : run.size();
            for (int q = 1; q < 6; ++q) h = mix(h, have[q] + 1);
            state(h);
            outcome(mix(h, r));
            if (r)
            {
                expect(t.kind == 0, "an unrelated, damaged or short string completes a GLONASS ephemeris");
                bool same = have[1] >= 0;
                for (int q = 2; q <= 5; ++q) same &= have[q] == have[1];
                expect(same, "GLONASS ephemeris reported from different superframes", str("%d %d %d %d %d", have[1], have[2], have[3], have[4], have[5]));
                if (same)
                {
                    int i = have[1];
                    for (auto& f : fs) checkfield(e, f, ms[i].s[f.s]);
                    checktimes(e, 6 + i, 1297 - i, ms[i].s[2].get(9, 7), 11 + i, 45, i);
                }
            }
            else if (t.kind == 0 && run.size() >= 5 && t.s == 5)
            {
                unsigned seen = 0;
                bool one = true;
                for (size_t q = run.size() - 5; q < run.size(); ++q) { seen |= 1u << run[q].first; one &= run[q].second == t.fr; }
                expect(!(seen == 62 && one), "GLONASS ephemeris not reported although strings 1 to 4 and then 5 of one frame arrived in a row");
            }
            expect(e.sat == 4 && e.gnssID == GnssID::Glonass, "GLONASS satellite identity");
        }
        trace();
        if (smp) sample(desc);
    };
    for (int len = 1; len <= (thorough() ? 6 : 4); ++len) words(T, len, [&](const std::vector<int>& w) { seq(w, false); });
    // strings of frames whose marks differ in a single bit, in every distribution
    for (int base : {0, 0xffff, 0x0d01, 0x5a5a})
        for (int j = 0; j < 16; ++j)
            for (int m = 0; m < 32; ++m)
            {
                if (!mine(idx++)) continue;
                ctx("marks %#x and %#x, strings of the second: mask %x", base, base ^ 1 << j, m);
                GlonassEphemeris e(4);
                bool r = false;
                for (int k = 1; k <= 5; ++k) r = feed(e, ms[0].s[k], m >> (k - 1) & 1 ? base ^ 1 << j : base);
                expect(r == (m == 0 || m == 31), r ? "GLONASS ephemeris reported from different superframes" : "GLONASS ephemeris not reported although strings 1 to 4 and then 5 of one frame arrived in a row");
                eval();
                nontrivial(mix(mix(base, j), mix(m, 0x99)));
            }
    auto tokof = [&](int k, int i) { return (k - 1) * 2 + i; };
    for (marks = markset[0]; marks != markset[6]; marks += 2)
    for (int o = 0; o < 6; ++o)
        for (int cut = 2; cut <= 5; ++cut)
        {
            std::vector<int> p;
            for (int k = 0; k < cut; ++k) p.push_back(tokof(perm[o][k], 0));
            for (int len = 1; len <= (thorough() ? 4 : 3); ++len)
                words(T, len, [&](const std::vector<int>& w) { auto q = p; q.insert(q.end(), w.begin(), w.end()); seq(q, len == 3); });
        }
    marks = markset[0];
    // 4. every 1- and 2-bit transmission error: the damaged string is either rejected or decodes to what was sent
    for (int wd = 1; wd <= 5; ++wd)
        for (int a = 0; a < 85; ++a)
        {
            if (!mine(a * 5 + wd)) continue;
            for (int b = a; b < 85; ++b)
                for (int mode = 0; mode < 2; ++mode)
                {
                    GlonassEphemeris e(4);
                    for (int k = 1; k <= 5; ++k) if (k != wd || mode) feed(e, ms[0].s[k], marks[0]);
                    std::string before = snap(e, fs);
                    BitStr s = ms[0].s[wd];
                    s.v[a] ^= 1;
                    if (b != a) s.v[b] ^= 1;
                    ctx("string %d with errors at bits %d,%d, %s", wd, a, b, mode ? "already complete" : "only string missing");
                    bool r = feed(e, s, marks[0]);
                    bool data = a < 77 || (b != a && b < 77);
                    if (data) expect(!r, "a damaged string completes a GLONASS ephemeris");
                    if (r) for (auto& f : fs) checkfield(e, f, ms[0].s[f.s]);
                    if (mode || data) expect(snap(e, fs) == before, "a damaged string changes a GLONASS ephemeris");
                    eval();
                    nontrivial(mix(mix(wd, mode), mix(a, b)));
                }
        }
    return finish();
}
