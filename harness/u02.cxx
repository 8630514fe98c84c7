// U02: commands to the receiver and its answers, under a controlled clock.
#include "vh.h"
#include <memory>
#include <new>
#include <time.h>
#include "parsers/ubx/ubx.h"
#include "ubxref.h"
using namespace vh;
using namespace mc::parsers::ublox;

// ---- controlled clock: every reading advances it and may let something happen
static bool clk_on = false;
static long long clk_ns = 0, clk_step = 0, clk_reads = 0;
static std::function<void(long long)> clk_event;
extern "C" int clock_gettime(clockid_t, struct timespec* ts)
{
    static bool inside = false;
    if (clk_on && !inside)
    {
        inside = true;
        clk_ns += clk_step;
        if (clk_event) clk_event(clk_reads);
        ++clk_reads;
        inside = false;
        if (clk_reads > 200000) { violation("waits for ever", g().sh->ctx); write_out(); fflush(nullptr); _exit(0); }
    }
    ts->tv_sec = 1600000000 + clk_ns / 1000000000;
    ts->tv_nsec = clk_ns % 1000000000;
    return 0;
}

struct U : Ubx
{
    using Ubx::Ubx;
    using Ubx::waitForResponse;
};
struct Box
{
    async_comm::Comm comm;
    alignas(64) unsigned char mem[sizeof(U)];
    U* u;
    explicit Box(int fill) { memset(mem, fill, sizeof mem); u = new (mem) U(comm); }
    ~Box() { u->~U(); }
    void feed(const Bytes& p) { std::unique_ptr<uint8_t[]> b(new uint8_t[p.size()]); memcpy(b.get(), p.data(), p.size()); u->receive_callback(b.get(), p.size()); }
};
static std::string hex(const Bytes& b) { std::string s; size_t n = std::min<size_t>(b.size(), 80); for (size_t i = 0; i < n; ++i) s += str("%02x", b[i]); return s + (n < b.size() ? str("..(%zu)", b.size()) : ""); }
static void le(Bytes& p, size_t at, uint64_t v, int n) { for (int i = 0; i < n; ++i) p[at + i] = v >> (8 * i); }
static Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }

// MON-VER: 30 byte software version, 10 byte hardware version, 30 byte strings
static Bytes monver(const std::vector<std::string>& ext)
{
    Bytes p(40 + 30 * ext.size(), 0);
    strcpy((char*)&p[0], "EXT CORE 1.00 (61b2dd)"); strcpy((char*)&p[30], "00190000");
    for (size_t i = 0; i < ext.size(); ++i) memcpy(&p[40 + 30 * i], ext[i].data(), std::min<size_t>(30, ext[i].size()));
    return ubx_frame(0x0a, 0x04, p);
}
// expected wire images
static Bytes valset(int ver, int layer, uint64_t data, uint32_t key, int size)
{
    Bytes p(12, 0);
    p[0] = ver; p[1] = layer; le(p, 4, key, 4); le(p, 8, data, size);
    return ubx_frame(0x06, 0x8a, p);
}
struct Cmd { std::string name; std::function<void(U&)> run; std::function<Bytes(bool gen9)> want; };
static std::vector<Cmd> commands()
{
    std::vector<Cmd> c;
    auto msg = [&](int k, int i, int r) {
        c.push_back({str("enableMessage(%d,%d,%d)", k, i, r), [=](U& u) { u.enableMessage(k, i, r); }, [=](bool) { return ubx_frame(6, 1, {(uint8_t)k, (uint8_t)i, (uint8_t)r}); }});
    };
    msg(0x02, 0x15, 1); msg(0xf5, 0xff, 0xff); msg(0x01, 0x07, 0);
    for (int ms : {200, 1, 255})
        c.push_back({str("setNavRate(%d)", ms), [=](U& u) { u.setNavRate(ms); }, [=](bool n) {
            if (n) return cat({valset(0, 1, ms, 0x30210001, 1), valset(0, 1, 1, 0x30210002, 1), valset(0, 1, 0, 0x20210003, 1)});
            Bytes p(6, 0); le(p, 0, ms, 2); le(p, 2, 1, 2); return ubx_frame(6, 8, p); }});
    c.push_back({"setDynamicMode", [](U& u) { u.setDynamicMode(); }, [](bool n) {
        if (n) return valset(0, 1, 6, 0x20110021, 1);
        Bytes p(36, 0); le(p, 0, 1, 2); p[2] = 8; return ubx_frame(6, 0x24, p); }});
    c.push_back({"disableNmea", [](U& u) { u.disableNmea(); }, [](bool n) {
        if (n) return cat({valset(0, 1, 0, 0x10770002, 1), valset(0, 1, 0, 0x10780002, 1)});
        Bytes p(20, 0); p[0] = 3; le(p, 4, 0x8c0, 4); le(p, 8, 921600, 4); le(p, 12, 0x21, 2); le(p, 14, 0x21, 2); return ubx_frame(6, 0, p); }});
    c.push_back({"startSurveyIn", [](U& u) { u.startSurveyIn(); }, [](bool) {
        Bytes p(40, 0); le(p, 2, 1, 2); le(p, 24, 60, 4); le(p, 28, 300, 4); return ubx_frame(6, 0x71, p); }});
    struct V { int ver, layer; uint64_t d; uint32_t k; int s; };
    for (V v : {V{0, 1, 1, 0x20910090, 1}, V{1, 4, 0xff, 0x209102a7, 1}, V{0, 2, 0xabcd, 0x30210001, 2}, V{0, 1, 0x12345678, 0x40030010, 4}})
        c.push_back({str("configure(%d,%d,%llx,%x,%d)", v.ver, v.layer, (unsigned long long)v.d, v.k, v.s), [=](U& u) { u.configure(v.ver, v.layer, v.d, v.k, v.s); }, [=](bool) { return valset(v.ver, v.layer, v.d, v.k, v.s); }});
    for (V v : {V{0, 0, 0, 0x20110021, 0}, V{1, 7, 0, 0xfedcba98, 0}})
        c.push_back({str("getConfiguration(%d,%d,%x)", v.ver, v.layer, v.k), [=](U& u) { u.getConfiguration(v.ver, v.layer, v.k); }, [=](bool) {
            Bytes p(16, 0); p[0] = v.ver; p[1] = v.layer; le(p, 4, v.k, 4); return ubx_frame(6, 0x8b, p); }});
    for (int n : {0, 1, 255, 256, 300, 2048})
        c.push_back({str("sendMessage(%d bytes)", n), [=](U& u) {
            static UbxMessage m; for (int i = 0; i < n; ++i) m.buffer[i] = (uint8_t)(i * 5 + 17 + (i >> 8)); u.sendMessage(0x13, 0x40, m, n); }, [=](bool) {
            Bytes p(n); for (int i = 0; i < n; ++i) p[i] = (uint8_t)(i * 5 + 17 + (i >> 8)); return ubx_frame(0x13, 0x40, p); }});
    return c;
}
static uint64_t trail(const Bytes& b) { return hbytes(b.data(), b.size()); }

static void outgoing()
{
    auto C = commands();
    int K = C.size();
    std::vector<Bytes> noise = {ubx_frame(5, 1, {6, 1}), ubx_frame(5, 0, {6, 1}), ubx_frame(1, 7, Bytes(92, 0xee)), {0xb5, 0x62, 6, 1, 3, 0, 9}};
    int D = thorough() ? 4 : 3;
    struct Ver { const char* s; bool gen9; };
    for (Ver v : {Ver{nullptr, false}, Ver{"PROTVER=18.00", false}, Ver{"PROTVER=23.01", false}, Ver{"PROTVER=27.11", true}, Ver{"PROTVER=32.01", true}})
        for (int fill : {0x00, 0x7f, 0xff})
            for (int len = 1; len <= (v.s ? D - 1 : D); ++len)
                words(K + noise.size(), len, [&](const std::vector<int>& w) {
                    if (w.back() >= K) return;
                    std::string d;
                    for (int i : w) d += (i < K ? C[i].name : str("receives %s", hex(noise[i - K]).c_str())) + "; ";
                    ctx("receiver %s, memory %02x: %s", v.s ? v.s : "not asked", fill, d.c_str());
                    Box x(fill);
                    if (v.s) x.feed(monver({"ROM BASE 0x118B2060", "FWVER=HPG 1.12", v.s, "MOD=ZED-F9P"}));
                    uint64_t st = mix(v.gen9, fill);
                    for (int i : w)
                    {
                        transition();
                        st = mix(st, i);
                        if (i >= K) { x.feed(noise[i - K]); continue; }
                        x.comm.sent.clear();
                        C[i].run(*x.u);
                        Bytes want = C[i].want(v.gen9);
                        std::string kind = C[i].name.substr(0, C[i].name.find('('));
                        VH_EXPECT(x.comm.sent == want, "bytes sent by " + kind, "sent %s want %s", hex(x.comm.sent).c_str(), hex(want).c_str());
                        state(st);
                        nontrivial(trail(x.comm.sent));
                        outcome(trail(x.comm.sent));
                    }
                    eval(); trace();
                });
}

// what the receiver may do while the driver waits
struct Answer { const char* name; Bytes b; int kind; };  // kind 1 version, 2 ack, 3 nack, 0 neither
static void waiting()
{
    Bytes ver = monver({"ROM BASE 0x118B2060", "FWVER=HPG 1.12", "PROTVER=27.11", "MOD=ZED-F9P", "GPS;GLO;GAL;BDS", "QZSS"});
    Bytes bad = ver; bad[60] ^= 1;
    std::vector<Answer> A = {{"nothing", {}, 0}, {"version", ver, 1}, {"damaged version", bad, 0}, {"ack", ubx_frame(5, 1, {6, 1}), 2}, {"nack", ubx_frame(5, 0, {6, 1}), 3},
                             {"position", ubx_frame(1, 7, Bytes(92, 1)), 0}, {"first half", Bytes(ver.begin(), ver.begin() + 77), 0}, {"second half", Bytes(ver.begin() + 77, ver.end()), 0}};
    const int STEP = 40;  // ms per clock reading
    int polls = 30;
    for (int what : {0, 1})                    // getVersion / waitForResponse
        for (int fill : {0x00, 0xff})
            for (int before = 0; before < (int)A.size(); ++before)
                for (int a1 = 0; a1 < (int)A.size(); ++a1)
                    for (int a2 = 0; a2 < (int)A.size(); ++a2)
                        for (int k1 = -1; k1 < polls; ++k1)
                            for (int gap : {0, 1, 5, 12, 23})
                            {
                                if (!a1 && k1 > -1) continue;
                                if (!a2 && gap) continue;
                                int k2 = k1 + gap;
                                if (k2 >= polls) continue;
                                if (what == 1 && k1 < 1) continue;  // the window opens after the first reading
                                uint64_t id = mix(mix(mix(what * 2 + (fill != 0), before), a1 * 64 + a2), k1 * 64 + gap);
                                if (!mine(id >> 5)) continue;
                                if (!thorough() && (before == 5 || before == 2) && gap > 1) continue;
                                ctx("%s: earlier %s, then %s at reading %d and %s at reading %d", what ? "wait" : "getVersion", A[before].name, A[a1].name, k1, A[a2].name, k2);
                                Box x(fill);
                                auto feed = [&](int i) { if (!A[i].b.empty()) x.feed(A[i].b); };
                                feed(before);
                                // reference: what complete answers arrive, and when
                                Bytes stream = A[before].b;
                                int pre = ubx_scan(stream).frames.size();
                                auto after = [&](int i) { stream.insert(stream.end(), A[i].b.begin(), A[i].b.end()); return ubx_scan(stream).frames; };
                                auto f1 = after(a1), f2 = after(a2);
                                struct Ev { int k, cls, id; };
                                std::vector<Ev> ev;
                                for (size_t i = pre; i < f1.size(); ++i) ev.push_back({k1, f1[i].cls, f1[i].id});
                                for (size_t i = f1.size(); i < f2.size(); ++i) ev.push_back({k2, f2[i].cls, f2[i].id});
                                int want = 0;  // 0 false, 1 true, 2 not judged (arrives on the deadline)
                                for (auto& e : ev)
                                {
                                    // reading 0 starts the clock, reading k is k*STEP later
                                    int t = e.k * STEP;
                                    bool rel = what ? (e.cls == 5 && (e.id == 0 || e.id == 1)) : (e.cls == 0x0a && e.id == 4);
                                    if (!rel) continue;
                                    if (t >= 1000 - 2 * STEP && t <= 1000 + 2 * STEP) { want = 2; break; }
                                    if (t > 1000) break;
                                    want = what ? e.id == 1 : 1;
                                    break;
                                }
                                // both kinds of answer in the same instant: the order is not specified
                                if (what && a1 && a2 && gap == 0) want = 2;
                                x.comm.sent.clear();
                                clk_ns = 0; clk_step = STEP * 1000000ll; clk_reads = 0;
                                bool sent_done = false;
                                if (k1 == -1 && !what)
                                    x.comm.on_send = [&] {
                                        if (!sent_done && x.comm.sent.size() == 8) { sent_done = true; feed(a1); if (gap == 0) feed(a2); } };
                                clk_event = [&](long long r) {
                                    if (k1 >= 0 && r == k1) feed(a1);
                                    if (r == k2 && k2 >= 0) feed(a2); };
                                clk_on = true;
                                bool ok = what ? x.u->waitForResponse() : x.u->getVersion();
                                clk_on = false;
                                long long took = (clk_reads - 1) * STEP;
                                if (want != 2)
                                {
                                    expect(ok == (want == 1), what ? "acknowledgement" : "version answered", str("returned %d", ok));
                                    if (!want && ev.empty()) expect(took >= 1000 && took <= 1000 + 3 * STEP, "time it waits for an answer", str("%lld ms", took));
                                }
                                if (!what)
                                {
                                    Bytes poll = ubx_frame(0x0a, 4, {});
                                    expect(x.comm.sent == poll, "version request", hex(x.comm.sent));
                                    if (ok && want == 1)
                                    {
                                        expect(x.u->majorVersion() == 27 && x.u->minorVersion() == 11, "version", str("%d.%d", x.u->majorVersion(), x.u->minorVersion()));
                                        expect(std::string(x.u->moduleVame()) == "ZED-F9P", "module name", x.u->moduleVame());
                                    }
                                }
                                transition(2); eval(); trace();
                                state(mix(mix(what, before), mix(a1 * 8 + a2, k1 * 64 + gap)));
                                if (!ev.empty()) nontrivial(id);
                                outcome(mix(ok, want));
                            }
}

static void versions()
{
    // the place of the strings, the numbers in them, names of every length
    std::vector<std::string> other = {"ROM BASE 0x118B2060", "FWVER=HPG 1.12", "GPS;GLO;GAL;BDS", "QZSS", "FIS=0xEF4015 (100111)", "SBAS;IMES;QZSS", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123", "PROTVERX", "MODEL=X", ""};
    auto run = [&](const std::vector<std::string>& ext, int maj, int mnr, const std::string& mod, const Bytes& first) {
        for (int fill : {0x00, 0xff, 0x31})
        {
            Box x(fill);
            if (!first.empty()) x.feed(first);
            x.feed(monver(ext));
            if (maj >= 0) expect(x.u->majorVersion() == maj && x.u->minorVersion() == mnr, "version", str("%d.%d want %d.%d", x.u->majorVersion(), x.u->minorVersion(), maj, mnr));
            std::string n(x.u->moduleVame(), strnlen(x.u->moduleVame(), 10));
            expect(n.size() < 10, "module name is terminated", n);
            if (mod.size() < 10) expect(n == mod, "module name", n + " want " + mod);
            else expect(n == mod.substr(0, n.size()), "module name", n + " want the start of " + mod);
            transition(); eval(); trace();
        }
        uint64_t h = 0; for (auto& e : ext) h = mix(h, hstr(e));
        nontrivial(h); state(h);
    };
    std::vector<std::pair<int, int>> nums;
    for (int a : {0, 1, 9, 10, 15, 18, 23, 27, 99, 100, 255}) for (int b : {0, 1, 2, 9, 10, 11, 30, 99}) nums.push_back({a, b});
    Bytes none, longer = monver({"PROTVER=15.01", "MOD=NEO-M8T-0", "PROTVER=15.01", "MOD=NEO-M8T-0", "PROTVER=15.01", "MOD=NEO-M8T-0", "x", "y", "PROTVER=15.01", "MOD=NEO-M8T-0"});
    for (int n = 2; n <= 10; ++n)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                if (i == j || !mine(n * 100 + i * 10 + j)) continue;
                for (auto& q : nums)
                {
                    std::vector<std::string> ext;
                    for (int k = 0; k < n; ++k) ext.push_back(other[(k + q.first) % other.size()]);
                    ext[i] = str("PROTVER=%d.%02d", q.first, q.second); ext[j] = "MOD=ZED-F9P";
                    ctx("%d strings, %s at %d, %s at %d", n, ext[i].c_str(), i, ext[j].c_str(), j);
                    run(ext, q.first, q.second, "ZED-F9P", none);
                }
            }
    for (int len = 0; len <= 26; ++len)
    {
        std::string m = std::string("ZED-F9P-02B-03-ABCDEFGHIJKLMN").substr(0, len);
        ctx("module name of %d characters", len);
        run({"MOD=" + m, "PROTVER=27.11"}, 27, 11, m, none);
        run({"PROTVER=27.11", "MOD=" + m}, 27, 11, m, longer);
        std::string num = std::string("1234567890123456789012").substr(0, std::min(len, 22));
        ctx("version number '%s' without a point", num.c_str());
        run({"PROTVER=" + num, "MOD=A"}, -1, 0, "A", none);
        ctx("version number 7.%s", num.c_str());
        run({"PROTVER=7." + num.substr(0, std::min<size_t>(num.size(), 20)), "MOD=A"}, -1, 0, "A", none);
    }
    // an answer without strings says nothing, whatever came before in the same buffer
    {
        ctx("other message with version strings in it, then a version answer without strings");
        Box x(0);
        Bytes p(340, 0); Bytes lf = longer; std::copy(lf.begin() + 6, lf.begin() + 6 + 340, p.begin());
        x.feed(ubx_frame(0x01, 0x35, p));
        x.feed(monver({}));
        expect(x.u->majorVersion() == 0 && std::string(x.u->moduleVame()).empty(), "version taken from another message", str("%d %s", x.u->majorVersion(), x.u->moduleVame()));
    }
}

int main()
{
    init();
    FILE* nul = freopen("/dev/null", "w", stdout); (void)nul;
    outgoing();
    waiting();
    versions();
    sample("disableNmea on a receiver whose version is not known; startSurveyIn after enableMessage");
    sample("getVersion: earlier version answer, damaged answer at reading 3, good one at reading 8");
    return finish();
}
