// U01: UBX framing: byte streams in, messages out.
#include "vh.h"
#include <memory>
#include <new>
#include "parsers/ubx/ubx.h"
#include "ubxref.h"
using namespace vh;
using namespace mc::parsers::ublox;

struct Got { int who, cls, id; uint64_t h; Bytes head; };
static std::vector<Got> got;
struct Lst : UbxListener
{
    int who;
    explicit Lst(int w) : who(w) {}
    void gotUbx(const uint8_t c, const uint8_t i, const UbxMessage& m) override
    {
        got.push_back({who, c, i, hbytes(m.buffer, BUFFER_SIZE), Bytes(m.buffer, m.buffer + BUFFER_SIZE)});
    }
};
static Lst* L[4];
static std::vector<std::pair<int, int>> subs[4];
static bool wants(int w, int c, int i) { for (auto& p : subs[w]) if (p.first == c && p.second == i) return true; return false; }
static async_comm::Comm comm;
struct Box
{
    alignas(64) unsigned char mem[sizeof(Ubx)];
    Ubx* u;
    explicit Box(int fill) { memset(mem, fill, sizeof mem); u = new (mem) Ubx(comm); for (auto* l : L) u->registerListener(l); }
    ~Box() { u->~Ubx(); }
    void feed(const uint8_t* p, size_t n) { std::unique_ptr<uint8_t[]> b(new uint8_t[n]); if (n) memcpy(b.get(), p, n); u->receive_callback(b.get(), n); }
};
static std::string hex(const Bytes& b) { std::string s; size_t n = std::min<size_t>(b.size(), 60); for (size_t i = 0; i < n; ++i) s += str("%02x", b[i]); return s + (n < b.size() ? str("..(%zu)", b.size()) : ""); }

// what a listener is handed for a frame, from a parser that has seen nothing else
static uint64_t alone(const UFrame& f)
{
    static std::map<uint64_t, uint64_t> memo;
    Bytes b = ubx_frame(f.cls, f.id, f.payload);
    uint64_t k = hbytes(b.data(), b.size());
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    std::vector<Got> keep; keep.swap(got);
    uint64_t hs[2];
    for (int v = 0; v < 2; ++v)
    {
        got.clear();
        static Lst one(9);
        one.subscribe(f.cls, f.id);
        Box x(v ? 0xA5 : 0x3C);
        x.u->registerListener(&one);
        x.feed(b.data(), b.size());
        hs[v] = 0;
        for (auto& g : got) if (g.who == 9) hs[v] = g.h;
    }
    expect(hs[0] == hs[1], "message depends on memory it was not given", hex(b));
    got.swap(keep);
    return memo[k] = hs[0];
}

// cuts: positions after which a new call starts
static void check(const Bytes& s, const std::vector<size_t>& cuts, int fill)
{
    UScan r = ubx_scan(s);
    if (r.ambiguous) { extra("not judged"); return; }
    got.clear();
    Box x(fill);
    try
    {
        size_t b = 0;
        for (size_t c : cuts) { x.feed(s.data() + b, c - b); b = c; }
        x.feed(s.data() + b, s.size() - b);
    }
    catch (std::exception& e) { violation("parser throws", str("%s @ %s", e.what(), g().sh->ctx)); return; }
    std::vector<UFrame>& f = r.frames;
    expect(x.u->numMessagesReceived() == f.size(), "number of messages", str("got %zu want %zu", x.u->numMessagesReceived(), f.size()));
    expect(x.u->parsingMessage() == r.open, "inside a frame", str("got %d want %d", x.u->parsingMessage(), r.open));
    size_t n = 0;
    bool ok = true;
    for (auto& fr : f)
        for (int w = 0; w < 4; ++w)
        {
            if (!wants(w, fr.cls, fr.id)) continue;
            if (n >= got.size()) { ok = false; break; }
            Got& q = got[n++];
            ok = ok && q.who == w && q.cls == fr.cls && q.id == fr.id && std::equal(fr.payload.begin(), fr.payload.end(), q.head.begin());
            if (ok) { uint64_t a = alone(fr); VH_EXPECT(q.h == a, "message content depends on earlier traffic", "%s", hex(fr.payload).c_str()); }
        }
    expect(ok && n == got.size(), "messages handed to the listeners", str("got %zu deliveries, want %zu", got.size(), n));
    transition(s.size());
    eval();
    if (!f.empty()) nontrivial(mix(hbytes(s.data(), s.size()), cuts.size()));
    state(mix(mix(f.size(), r.open), s.empty() ? 0 : s.back() * 256 + (s.size() > 1 ? s[s.size() - 2] : 0)));
    outcome(mix(f.size(), r.open * 2 + 1));
}

int main()
{
    init();
    FILE* nul = freopen("/dev/null", "w", stdout); (void)nul;
    subs[0] = {{0, 0}};
    subs[1] = {{5, 1}, {0, 0}, {0x62, 0xb5}, {1, 7}, {0x0a, 4}, {2, 0x15}, {2, 0x13}, {0xb5, 0x62}};
    subs[2] = {};
    subs[3] = {{7, 1}, {1, 7}, {0, 1}, {1, 0}, {3, 3}};
    for (int i = 0; i < 4; ++i) { L[i] = new Lst(i); for (auto& p : subs[i]) L[i]->subscribe(p.first, p.second); }

    // 1. every byte string over small alphabets
    {
        const Bytes al = {0xb5, 0x62, 0x00, 0x01, 0x03};
        int N = thorough() ? 11 : 9;
        for (int len = 0; len <= N; ++len)
            words(al.size(), len, [&](const std::vector<int>& w) {
                Bytes s; for (int i : w) s.push_back(al[i]);
                ctx("bytes %s", hex(s).c_str());
                check(s, {}, 0xA5);
                std::vector<size_t> each; for (size_t i = 1; i < s.size(); ++i) each.push_back(i);
                if (len <= 8) check(s, each, 0x3C);
            });
        // after a valid header the remaining bytes range over the same alphabet
        int M = thorough() ? 9 : 7;
        for (int len = 0; len <= M; ++len)
            words(al.size(), len, [&](const std::vector<int>& w) {
                Bytes s = {0xb5, 0x62, 0x00, 0x00}; for (int i : w) s.push_back(al[i]);
                ctx("bytes %s", hex(s).c_str());
                check(s, {}, 0x11);
                if (len <= 5)
                    for (unsigned m = 0; m < 1u << (s.size() - 1); ++m)
                    {
                        std::vector<size_t> cuts;
                        for (size_t i = 0; i + 1 < s.size(); ++i) if (m >> i & 1) cuts.push_back(i + 1);
                        ctx("bytes %s in calls %x", hex(s).c_str(), m);
                        check(s, cuts, 0x11);
                    }
            });
    }
    // 2. sequences of frames, damaged frames and noise
    {
        auto pat = [](size_t n, int k) { Bytes p(n); for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(mix(i, k) >> 13); return p; };  // no pattern: sums must not cancel
        std::vector<Bytes> T;
        T.push_back(ubx_frame(0, 0, {}));
        T.push_back(ubx_frame(0, 0, {0x42}));
        T.push_back(ubx_frame(5, 1, {6, 1}));
        T.push_back(ubx_frame(5, 0, {6, 1}));
        T.push_back(ubx_frame(1, 7, pat(92, 3)));
        T.push_back(ubx_frame(1, 7, pat(255, 3)));
        T.push_back(ubx_frame(0, 0, pat(256, 9)));
        T.push_back(ubx_frame(5, 1, pat(257, 5)));
        T.push_back(ubx_frame(2, 0x15, pat(2048, 1)));
        T.push_back({0xb5, 0x62, 0, 0, 0x01, 0x08, 1, 2, 3});  // one byte more than the buffer holds
        T.push_back({0xb5, 0x62, 1, 7, 0xff, 0xff});
        { Bytes b = ubx_frame(1, 7, pat(92, 3)); b[b.size() - 2] ^= 1; T.push_back(b); }
        { Bytes b = ubx_frame(1, 7, pat(92, 3)); b[b.size() - 1] ^= 0x80; T.push_back(b); }
        { Bytes b = ubx_frame(1, 7, pat(92, 3)); b[50] ^= 4; T.push_back(b); }
        { Bytes b = ubx_frame(1, 7, pat(300, 3)); b[280] ^= 4; T.push_back(b); }
        T.push_back({0xb5});
        T.push_back({0xb5, 0x62});
        T.push_back({0x62});
        T.push_back({0x00, 0xff, 0x17});
        T.push_back({0xb5, 0x62, 5, 1});
        T.push_back({0xb5, 0x62, 0, 0, 4, 0, 9, 9});
        T.push_back(ubx_frame(0, 0, ubx_frame(5, 1, {6, 1})));         // a frame inside a frame
        { Bytes p = ubx_frame(5, 1, {6, 1}); p.push_back(0xb5); T.push_back(ubx_frame(0x0a, 5, p)); }
        { for (int v = 0; v < 256; ++v) { Bytes b = ubx_frame(0, 0, {(uint8_t)v}); if (b.back() == 0xb5) { T.push_back(b); break; } } }
        { Bytes p(160, 0); strcpy((char*)&p[40], "FWVER=HPG 1.12"); strcpy((char*)&p[70], "PROTVER=27.11"); strcpy((char*)&p[100], "MOD=ZED-F9P"); T.push_back(ubx_frame(0x0a, 4, p)); }
        T.push_back(ubx_frame(0x0a, 4, Bytes(40, 0)));
        T.push_back(ubx_frame(7, 1, {1}));   // same key if class and identifier were only added
        T.push_back(ubx_frame(0x62, 0xb5, {0xb5, 0x62}));
        { Bytes p = {1, 2, 3}; Bytes b = ubx_frame(5, 1, p); b.pop_back(); T.push_back(b); }   // the last byte was lost: the next frame's first byte takes its place
        T.push_back({0xb5, 0x62, 1, 7, 0x02, 0xb5});   // too long, and its last byte may open the next frame
        extra("tokens", first() ? T.size() : 0);
        int D = thorough() ? 4 : 3;
        for (int len = 1; len <= D; ++len)
            words(T.size(), len, [&](const std::vector<int>& w) {
                Bytes s;
                std::vector<size_t> bnd;
                for (int i : w) { s.insert(s.end(), T[i].begin(), T[i].end()); bnd.push_back(s.size()); }
                bnd.pop_back();
                ctx("tokens %s", wstr(w).c_str());
                check(s, {}, 0xA5);
                check(s, bnd, 0x3C);
                if (len <= 2 && s.size() < 1200)
                    for (size_t c = 1; c < s.size(); ++c) { ctx("tokens %s cut at %zu", wstr(w).c_str(), c); check(s, {c}, 0); }
                std::vector<size_t> odd; for (size_t c = 7; c < s.size(); c += 7) odd.push_back(c);
                ctx("tokens %s in calls of 7", wstr(w).c_str());
                if (s.size() < 3000) check(s, odd, 0);
            });
    }
    // 3. one and two damaged bits of a frame followed by a good one
    {
        Bytes good = ubx_frame(5, 1, {0x06, 0x8a}), probe = ubx_frame(1, 7, {1, 2, 3});
        size_t nb = good.size() * 8;
        for (size_t a = 0; a < nb; ++a)
            for (size_t b = a; b < nb; ++b)
            {
                if (!mine(a * nb + b)) continue;
                Bytes s = good;
                s[a / 8] ^= 1 << (a % 8);
                if (b != a) s[b / 8] ^= 1 << (b % 8);
                s.insert(s.end(), probe.begin(), probe.end());
                s.insert(s.end(), probe.begin(), probe.end());
                ctx("bits %zu,%zu flipped", a, b);
                check(s, {}, 0);
            }
        // every payload length once, delivered intact
        for (int n = 0; n <= 2048; n += thorough() ? 1 : (n < 300 || n > 1990 ? 1 : 5))
        {
            if (!mine(n)) continue;
            Bytes p(n); for (int i = 0; i < n; ++i) p[i] = (uint8_t)(mix(i, n) >> 13);
            Bytes s = ubx_frame(0, 0, p);
            ctx("length %d", n);
            check(s, {}, 0x77);
            Bytes t = probe; t.insert(t.end(), s.begin(), s.end()); t.insert(t.end(), probe.begin(), probe.end());
            check(t, {9, 20}, 0x77);
        }
        for (int n = 2049; n < 65536; n += thorough() ? 1 : 61)
        {
            if (!mine(n)) continue;
            Bytes s = {0xb5, 0x62, 1, 7, (uint8_t)n, (uint8_t)(n >> 8)};
            s.insert(s.end(), probe.begin(), probe.end());
            ctx("length %d, too long", n);
            check(s, {}, 0);
        }
    }
    // 4. every class and identifier reaches exactly the listeners that asked for it
    for (int c = 0; c < 256; ++c)
    {
        if (!mine(c)) continue;
        for (int i = 0; i < 256; ++i) { ctx("class %d id %d", c, i); check(ubx_frame(c, i, {0x33}), {}, 0); }
    }
    sample("b5 62 00 00 00 00 00 00 (empty message), then noise, then an acknowledgement in calls of 7 bytes");
    sample("header announcing 2049 bytes, three noise bytes, position message");
    return finish();
}
