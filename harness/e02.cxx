// E02: Galileo I/NAV ephemeris assembly and decoding.
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include "bits.h"
#include "common/ephemeris/galileo.h"
using namespace mc;
using namespace mc::ephemeris;
using namespace vh;

static uint32_t crcref(const BitStr& b, int n)
{
    uint32_t r = 0;
    for (int i = 0; i < n; ++i)
    {
        uint32_t top = (r >> 23 & 1) ^ b.v[i];
        r = (r << 1) & 0xffffff;
        if (top) r ^= 0x864cfb;
    }
    return r;
}
// The nominal page: even part [even=0, nominal=0, data 0..111, tail 6, pad 8], odd part [odd=1, nominal=0, data 112..127,
// 64 reserved, CRC 24, 8 reserved, tail 6, pad]. `junk` fills everything that is not data or CRC.
static BitStr page(const BitStr& word, uint64_t junk, int alert = 0)
{
    BitStr p(256);
    for (int i = 0; i < 256; ++i) p.put(i, 1, junk >> (i % 59));
    p.put(0, 1, 0).put(1, 1, alert & 1).put(128, 1, 1).put(129, 1, alert >> 1);
    for (int i = 0; i < 112; ++i) p.v[2 + i] = word.v[i];
    for (int i = 0; i < 16; ++i) p.v[130 + i] = word.v[112 + i];
    BitStr c(196);
    for (int i = 0; i < 114; ++i) c.v[i] = p.v[i];
    for (int i = 0; i < 82; ++i) c.v[114 + i] = p.v[128 + i];
    p.put(128 + 82, 24, crcref(c, 196));
    return p;
}
static bool feedpage(GalileoEphemeris& e, const BitStr& p, size_t size = 32)
{
    auto b = p.bytes();
    std::unique_ptr<uint8_t[]> h(new uint8_t[size]);
    for (size_t i = 0; i < size && i < 32; ++i) h[i / 4 * 4 + 3 - i % 4 < size ? i / 4 * 4 + 3 - i % 4 : i] = b[i];
    for (size_t i = 32; i < size; ++i) h[i] = 0xa5;
    return e.parse(h.get(), size);
}
struct F { const char* name; int w, pos, len; bool sgn; double scale; std::function<double(const GalileoEphemeris&)> get; };
static std::vector<F> fields()
{
#define G(x) [](const GalileoEphemeris& e) -> double { return (double)e.x; }
    return {
        {"tow", 0, 108, 20, false, 1, G(tow)},
        {"ephemeris seconds", 1, 16, 14, false, 60, G(toes)}, {"m0", 1, 30, 32, true, pow(2, -31) * M_PI, G(m0)},
        {"eccentricity", 1, 62, 32, false, pow(2, -33), G(ecc)}, {"sqrt a", 1, 94, 32, false, pow(2, -19), G(sqrta)},
        {"omega0", 2, 16, 32, true, pow(2, -31) * M_PI, G(omega0)}, {"i0", 2, 48, 32, true, pow(2, -31) * M_PI, G(i0)},
        {"w", 2, 80, 32, true, pow(2, -31) * M_PI, G(w)}, {"idot", 2, 112, 14, true, pow(2, -43) * M_PI, G(idot)},
        {"omega dot", 3, 16, 24, true, pow(2, -43) * M_PI, G(omegadot)}, {"delta n", 3, 40, 16, true, pow(2, -43) * M_PI, G(delta_n)},
        {"cuc", 3, 56, 16, true, pow(2, -29), G(cuc)}, {"cus", 3, 72, 16, true, pow(2, -29), G(cus)},
        {"crc", 3, 88, 16, true, pow(2, -5), G(crc)}, {"crs", 3, 104, 16, true, pow(2, -5), G(crs)},
        {"cic", 4, 22, 16, true, pow(2, -29), G(cic)}, {"cis", 4, 38, 16, true, pow(2, -29), G(cis)},
        {"clock seconds", 4, 54, 14, false, 60, G(tocs)}, {"af0", 4, 68, 31, true, pow(2, -34), G(af0)},
        {"af1", 4, 99, 21, true, pow(2, -46), G(af1)}, {"af2", 4, 120, 6, true, pow(2, -59), G(af2)},
        {"bgd e1 e5a", 5, 47, 10, true, pow(2, -32), G(bgd_e1_e5a)}, {"bgd e1 e5b", 5, 57, 10, true, pow(2, -32), G(bgd_e1_e5b)},
        {"e5b health", 5, 67, 2, false, 1, G(e5b_hs)}, {"e1b health", 5, 69, 2, false, 1, G(e1b_hs)},
        {"e5b validity", 5, 71, 1, false, 1, G(e5b_dvs)}, {"e1b validity", 5, 72, 1, false, 1, G(e1b_dvs)}};
}
struct Msg { std::vector<BitStr> w = std::vector<BitStr>(7, BitStr(128)); };
static void common(Msg& m, int iod, int week, int tow, int sat)
{
    for (int k = 0; k <= 6; ++k) m.w[k].put(0, 6, k);
    for (int k = 1; k <= 4; ++k) m.w[k].put(6, 10, iod);
    m.w[0].put(96, 12, week).put(108, 20, tow);
    m.w[4].put(16, 6, sat);
}
static double dec(const F& f, uint64_t r) { return (f.sgn ? (double)sext(r, f.len) : (double)r) * f.scale; }
// `tail`: the sixteen page bits that this code is known to use in place of word bits 112..127
static void checkfield(const GalileoEphemeris& e, const F& f, const BitStr& word, const BitStr& pg)
{
    double want = dec(f, word.get(f.pos, f.len)), got = f.get(e);
    if (fabs(got - want) <= 1e-14 * fabs(want)) return;
    std::string sig = str("Galileo field %s", f.name);
    if (f.pos + f.len > 112)
    {
        BitStr k = word;
        for (int i = 0; i < 16; ++i) k.v[112 + i] = pg.v[234 + i];
        double kw = dec(f, k.get(f.pos, f.len));
        if (fabs(got - kw) <= 1e-14 * fabs(kw)) sig += ": last 16 word bits taken from behind the checksum";
    }
    violation(sig, str("got %.17g want %.17g @ %s", got, want, g().sh->ctx));
}
static void checktimes(const GalileoEphemeris& e, int week, int tow, int toes, int tocs)
{
    int w = week + 1024, d = toes - tow;
    if (d > 302400) --w; else if (d < -302400) ++w;
    UTCTime te = UTCTime::fromGPS(w, toes * 1000), tc = UTCTime::fromGPS(w, tocs * 1000);
    expect(e.toe == te, "Galileo time of ephemeris", str("got %lld want %lld", (long long)e.toe.sec, (long long)te.sec));
    expect(e.toc == tc, "Galileo time of clock", str("got %lld want %lld", (long long)e.toc.sec, (long long)tc.sec));
    expect(e.week == w, "Galileo week on the GPS scale", str("%d want %d", e.week, w));
}
static std::string snap(const GalileoEphemeris& e, const std::vector<F>& fs)
{
    std::string s;
    for (auto& f : fs) s += str("%a,", f.get(e));
    return s + str("%d,%d,%d,%lld", e.week, e.iode, e.iodc, (long long)e.toe.sec);
}

int main()
{
    init();
    auto fs = fields();
    uint64_t idx = 0;
    static const int order[4][6] = {{2, 4, 1, 3, 5, 0}, {2, 0, 1, 3, 4, 5}, {2, 5, 4, 3, 1, 0}, {2, 1, 0, 5, 3, 4}};
    // 1. fields
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i];
        std::vector<uint64_t> vals = {0, 1, (1ull << (f.len - 1)), (1ull << (f.len - 1)) - 1, (1ull << f.len) - 1};
        for (int b = 0; b < f.len; ++b) { vals.push_back(1ull << b); vals.push_back(((1ull << f.len) - 1) ^ (1ull << b)); }
        for (int64_t d = -5; d <= 5; ++d) for (int q = 0; q < 4; ++q) vals.push_back((uint64_t)(((int64_t)q << (f.len > 2 ? f.len - 2 : 0)) + d) & ((1ull << f.len) - 1));
        if (f.len <= (thorough() ? 16 : 8)) for (uint64_t v = 0; v < 1ull << f.len; ++v) vals.push_back(v);
        std::sort(vals.begin(), vals.end());
        vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
        if (f.w == 0) vals = {302400, 302401, 302464, 310000, 316783, 295000};
        for (uint64_t v : vals)
            for (uint64_t bg : std::vector<uint64_t>{0, ~0ull, 0x3c5a3c5a3c5a3c5aull})
                for (int o = 0; o < 4; ++o)
                {
                    if (!mine(idx++)) continue;
                    Msg m;
                    for (int k = 0; k <= 5; ++k) for (int p = 0; p < 128; ++p) m.w[k].put(p, 1, bg >> (p % 61));
                    common(m, bg & 1023, 1055, 302400, 11);
                    m.w[1].put(16, 14, 300000 / 60);
                    m.w[4].put(54, 14, 300000 / 60);
                    m.w[f.w].put(f.pos, f.len, v);
                    ctx("word %d field %s raw %llx background %llx order %d", f.w, f.name, (unsigned long long)v, (unsigned long long)bg, o);
                    GalileoEphemeris e(11);
                    bool r = false;
                    std::vector<BitStr> pg;
                    for (int k = 0; k < 6; ++k) pg.push_back(page(m.w[k], bg * 7 + k));
                    for (int k = 0; k < 6; ++k)
                    {
                        r = feedpage(e, pg[order[o][k]], o == 3 ? 36 : 32);
                        if (k < 5) expect(!r, "Galileo ephemeris complete before all six words");
                    }
                    expect(r, "Galileo ephemeris complete after all six words of one issue");
                    eval();
                    nontrivial(mix(mix(i, v), mix(bg, o)));
                    if (!r) continue;
                    for (auto& g : fs) checkfield(e, g, m.w[g.w], pg[g.w]);
                    expect(e.iode == (int)(bg & 255) && e.iodc == (int)(bg & 1023), "Galileo issue of data", str("%d %d", e.iode, e.iodc));
                    expect(e.sat == 11 && e.gnssID == GnssID::Galileo, "Galileo satellite identity");
                    int toes = m.w[1].get(16, 14) * 60, tocs = m.w[4].get(54, 14) * 60;
                    if (toes < 600000 && tocs < 600000 && abs(toes - 302400) < 200000) checktimes(e, 1055, 302400, toes, tocs);
                }
    }
    // 2. weeks and week boundary
    for (int week : {0, 1, 1023, 1054, 2047, 2500})
        for (int tow : {0, 10, 14400, 302400, 590400, 604790})
            for (int dt : {-14400, -3600, 0, 3600, 10800})
            {
                if (!mine(idx++) || (week == 0 && tow < 20000)) continue;
                int toes = ((tow + dt + 604800) % 604800) / 60 * 60;
                Msg m;
                common(m, 5, week, tow, 11);
                m.w[1].put(16, 14, toes / 60);
                m.w[4].put(54, 14, toes / 60);
                for (int o = 0; o < 4; ++o)
                {
                    ctx("week %d tow %d toe %d order %d", week, tow, toes, o);
                    GalileoEphemeris e(11);
                    bool r = false;
                    for (int k = 0; k < 6; ++k) r = feedpage(e, page(m.w[order[o][k]], 0));
                    expect(r, "Galileo ephemeris complete after all six words of one issue");
                    if (r) checktimes(e, week, tow, toes, toes);
                    eval();
                    nontrivial(mix(mix(week, tow), toes));
                }
            }
    // 3. sequences: two issues, a foreign satellite's word 4, alert / damaged / short pages, irrelevant word
    std::vector<Msg> ms(3);
    int issues[3] = {0x117, 0x02c, 0x117};
    for (int i = 0; i < 3; ++i)  // message 2: same issue, other satellite
    {
        for (auto& f : fs) ms[i].w[f.w].put(f.pos, f.len, (0x1111111111111111ull * (i + 1)) & ((1ull << f.len) - 1));
        common(ms[i], issues[i], 1055, 302400, i == 2 ? 12 : 11);
        ms[i].w[1].put(16, 14, (300000 + 600 * i) / 60);
        ms[i].w[4].put(54, 14, (300000 + 600 * i) / 60);
    }
    struct Tok { std::string n; int w, issue, kind; };
    std::vector<Tok> toks;
    for (int k = 0; k <= 5; ++k) for (int i = 0; i < 2; ++i) toks.push_back({str("%d%c", k, (k == 0 || k == 5) && !i ? '*' : "AB"[i]), k, i, 0});
    toks.push_back({"4 other satellite", 4, 2, 1});
    toks.push_back({"word 6", 6, 0, 2});
    toks.push_back({"2B damaged", 2, 1, 3});
    toks.push_back({"4B short", 4, 1, 4});
    toks.push_back({"3B alert", 3, 1, 5});
    std::vector<BitStr> pgs;
    for (auto& t : toks)
    {
        BitStr p = page(ms[t.issue].w[t.w], 0, t.kind == 5 ? 1 : 0);
        if (t.kind == 3) p.v[20] ^= 1;
        pgs.push_back(p);
    }
    auto seq = [&](const std::vector<int>& w, bool smp) {
        std::string desc;
        for (int t : w) desc += toks[t].n + ", ";
        ctxs(desc);
        GalileoEphemeris e(11);
        memset((void*)&e.ai0, 0, 1);
        int last[6] = {-1, -1, -1, -1, -1, -1};
        std::vector<std::pair<int, int>> run;
        for (size_t k = 0; k < w.size(); ++k)
        {
            const Tok& t = toks[w[k]];
            if (t.kind == 0) { last[t.w] = t.issue; }
            bool r = feedpage(e, pgs[w[k]], t.kind == 4 ? 31 : 32);
            transition();
            if (t.kind == 0) run.push_back({t.w, t.issue});
            uint64_t h = run.size() > 6 ? 7 : run.size();
            for (int q = 0; q < 6; ++q) h = mix(h, last[q] + 1);
            state(h);
            outcome(mix(h, r));
            if (r)
            {
                expect(t.kind == 0, "a foreign, damaged, alert or short page completes a Galileo ephemeris");
                bool same = last[0] >= 0 && last[5] >= 0 && last[1] >= 0 && last[1] == last[2] && last[2] == last[3] && last[3] == last[4];
                expect(same, "Galileo ephemeris reported from different issues of data", str("%d %d %d %d", last[1], last[2], last[3], last[4]));
                if (same)
                {
                    for (auto& f : fs) checkfield(e, f, ms[last[f.w]].w[f.w], page(ms[last[f.w]].w[f.w], 0));
                    expect(e.iodc == issues[last[1]] && e.iode == (issues[last[1]] & 255), "Galileo issue of data");
                    checktimes(e, 1055, 302400, 300000 + 600 * last[1], 300000 + 600 * last[1]);
                }
                run.clear();
            }
            else if (t.kind == 0 && run.size() >= 6)
            {
                // six words in a row, word 2 first, each once, one issue: must have been reported by now
                unsigned seen = 0;
                bool one = true;
                for (size_t q = run.size() - 6; q < run.size(); ++q)
                {
                    seen |= 1u << run[q].first;
                    if (run[q].first >= 1 && run[q].first <= 4) one &= run[q].second == run[run.size() - 6].second;
                }
                expect(!(seen == 63 && one && run[run.size() - 6].first == 2), "Galileo ephemeris not reported although all six words of one issue arrived in a row");
            }
            expect(e.sat == 11 && e.gnssID == GnssID::Galileo, "Galileo satellite identity");
        }
        trace();
        if (smp) sample(desc);
    };
    int T = (int)toks.size();
    for (int len = 1; len <= (thorough() ? 5 : 4); ++len) words(T, len, [&](const std::vector<int>& w) { seq(w, false); });
    // from every point of a complete collection (each reception order of issue A's words after word 2, plus the state just after
    // a report), all continuations to a depth
    std::vector<int> base = {/*2A*/ 0, 0, 0, 0, 0, 0};
    auto tokof = [&](const std::string& n) { for (int i = 0; i < T; ++i) if (toks[i].n == n) return i; abort(); };
    std::vector<std::vector<int>> pre;
    for (int o = 0; o < 4; ++o)
        for (int cut = 3; cut <= 6; ++cut)
        {
            std::vector<int> p;
            for (int k = 0; k < cut; ++k) { int x = order[o][k]; p.push_back(tokof(str("%d%c", x, (x == 0 || x == 5) ? '*' : 'A'))); }
            pre.push_back(p);
        }
    for (auto& p : pre)
        for (int len = 1; len <= (thorough() ? 5 : 3); ++len)
            words(T, len, [&](const std::vector<int>& w) { auto q = p; q.insert(q.end(), w.begin(), w.end()); seq(q, len == 3); });
    // words of issues that differ in a single bit (thorough: in any way), in every distribution over the four words that carry it
    {
        std::vector<std::pair<int, int>> pairs;
        for (int b : {0, 0x3ff, 0x155, 0x2aa, 0x0ff, 0x100}) for (int j = 0; j < 10; ++j) pairs.push_back({b, b ^ 1 << j});
        if (thorough()) for (int a = 0; a < 1024; ++a) for (int b = a % 7; b < 1024; b += 7) if (a != b) pairs.push_back({a, b});
        for (auto& pr : pairs)
            for (int m = 0; m < 16; ++m)
            {
                if (!mine(idx++)) continue;
                ctx("issues %#x and %#x, words of the second: mask %x", pr.first, pr.second, m);
                GalileoEphemeris e(11);
                bool r = false;
                for (int k : {2, 4, 1, 3, 5, 0})
                {
                    BitStr w = ms[0].w[k];
                    if (k >= 1 && k <= 4) w.put(6, 10, m >> (k - 1) & 1 ? pr.second : pr.first);
                    r = feedpage(e, page(w, 0));
                }
                expect(r == (m == 0 || m == 15), r ? "Galileo ephemeris reported from different issues of data" : "Galileo ephemeris complete after all six words of one issue");
                if (r) expect(e.iodc == (m ? pr.second : pr.first), "Galileo issue of data");
                eval();
                nontrivial(mix(mix(pr.first, pr.second), mix(m, 0x99)));
            }
    }
    // pages whose halves are not an even half followed by an odd one, with a checksum that fits them, leave no trace
    for (int wd = 0; wd <= 5; ++wd)
        for (int parts : {0, 2, 3})
            for (int alert = 0; alert < 4; ++alert)
            {
                if (!mine(idx++)) continue;
                GalileoEphemeris e(11);
                for (int k : {2, 4, 1, 3, 5, 0}) if (k != wd) feedpage(e, page(ms[0].w[k], 0));
                std::string before = snap(e, fs);
                BitStr p = page(ms[wd == 2 ? 1 : 0].w[wd], 0x35, alert);
                p.put(0, 1, parts >> 1).put(128, 1, parts & 1);
                BitStr c(196);
                for (int i = 0; i < 114; ++i) c.v[i] = p.v[i];
                for (int i = 0; i < 82; ++i) c.v[114 + i] = p.v[128 + i];
                p.put(128 + 82, 24, crcref(c, 196));
                ctx("word %d in a page with half flags %d%d", wd, parts >> 1, parts & 1);
                expect(!feedpage(e, p), "a page without an even and an odd half completes a Galileo ephemeris");
                expect(snap(e, fs) == before, "a page without an even and an odd half changes a Galileo ephemeris");
                eval();
                nontrivial(mix(mix(wd, parts), mix(alert, 0x77)));
            }
    // 4. transmission errors: every 1- and 2-bit error and every burst up to 24 bits in the protected part leaves no trace
    {
        std::vector<int> prot;
        for (int i = 0; i < 114; ++i) prot.push_back(i);
        for (int i = 128; i < 128 + 106; ++i) prot.push_back(i);
        for (int wd = 0; wd <= 5; ++wd)
        {
            auto attempt = [&](const std::vector<int>& flips, const char* what) {
                GalileoEphemeris e(11);
                for (int k : {2, 4, 1, 3, 5, 0}) if (k != wd) feedpage(e, page(ms[0].w[k], 0));
                std::string before = snap(e, fs);
                BitStr p = page(ms[1].w[wd], 0x123456789abcdull);
                for (int f : flips) p.v[f] ^= 1;
                ctx("word %d with %s at bit %d..%d", wd, what, flips.front(), flips.back());
                bool r = feedpage(e, p);
                expect(!r, "a damaged page completes a Galileo ephemeris");
                expect(snap(e, fs) == before, "a damaged page changes a Galileo ephemeris");
                eval();
                nontrivial(mix(mix(wd, flips.size()), mix(flips.front(), flips.back())));
            };
            for (size_t a = 0; a < prot.size(); ++a)
            {
                if (!mine(a)) continue;
                attempt({prot[a]}, "a bit error");
                for (size_t b = a + 1; b < prot.size(); ++b) if (thorough() || wd == 2 || wd == 4 || b % 5 == 0) attempt({prot[a], prot[b]}, "two bit errors");
                for (int len = 3; len <= 24; ++len)
                    if (a + len <= prot.size())
                    {
                        std::vector<int> fl(prot.begin() + a, prot.begin() + a + len);
                        attempt(fl, "an error burst");
                        attempt({fl.front(), fl[len / 2], fl.back()}, "a sparse error burst");
                    }
            }
        }
    }
    return finish();
}
