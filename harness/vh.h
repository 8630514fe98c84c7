// Shared runtime for the bounded exhaustive harnesses (see DESIGN.md, "Machinery").
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh
{
struct Shared
{
    volatile int hang;
    char ctx[4096];
};

struct Global
{
    std::unordered_set<uint64_t> states, nontrivial, outcomes;
    uint64_t transitions = 0, evaluations = 0, traces = 0;
    std::map<std::string, std::string> viol;      // signature -> first detail
    std::map<std::string, uint64_t> viol_count;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> extra;
    Shared* sh = nullptr;
    std::string out;
    int shard = 0, nshards = 1;
    bool thorough = false;
    uint64_t case_no = 0;
    uint64_t only = ~0ull;
};
inline Global& g()
{
    static Global* G = new Global();
    return *G;
}

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

inline std::string fmtv(const char* f, va_list ap)
{
    char b[8192];
    vsnprintf(b, sizeof b, f, ap);
    return b;
}
inline std::string str(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string str(const char* f, ...)
{
    va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
    return s;
}

// the greater; not a number when either is not (std::max and Eigen's maxCoeff() drop it)
template <class T> inline T worse(T a, T b) { return a != a ? a : !(b <= a) ? b : a; }
template <class T> inline T worst(std::initializer_list<T> l) { T m = *l.begin(); for (T x : l) m = worse(m, x); return m; }
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hstr(const std::string& s) { return hbytes(s.data(), s.size()); }

inline void write_out();

// Describes the execution in progress; survives a crash (kept in a mapped file).
inline void ctx(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void ctx(const char* f, ...)
{
    va_list ap; va_start(ap, f);
    vsnprintf(g().sh->ctx, sizeof(g().sh->ctx), f, ap);
    va_end(ap);
    ++g().case_no;
}
inline void ctxs(const std::string& s)
{
    size_t n = std::min(s.size(), sizeof(g().sh->ctx) - 1);
    memcpy(g().sh->ctx, s.data(), n); g().sh->ctx[n] = 0;
    ++g().case_no;
}

inline void on_tick(int)
{
    static uint64_t last = ~0ull;
    static int stuck = 0;
    if (g().case_no == last) { if (++stuck >= 12) { g().sh->hang = 1; _exit(77); } }
    else { stuck = 0; last = g().case_no; }
}

inline void init()
{
    Global& G = g();
    const char* o = getenv("VH_OUT");
    G.out = o ? o : "/dev/stdout";
    if (getenv("VH_SHARD")) G.shard = atoi(getenv("VH_SHARD"));
    if (getenv("VH_NSHARDS")) G.nshards = atoi(getenv("VH_NSHARDS"));
    const char* t = getenv("VERIF_TIER");
    G.thorough = t && !strcmp(t, "thorough");
    const char* c = getenv("VH_CTX");
    if (c)
    {
        int fd = open(c, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("ctx"); _exit(90); }
        G.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    else G.sh = (Shared*)calloc(1, sizeof(Shared));
    // watchdog: CPU time spent inside one execution (a hang, not a slow machine)
    signal(SIGPROF, on_tick);
    itimerval iv{{5, 0}, {5, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline bool thorough() { return g().thorough; }
inline bool mine(uint64_t i) { return (int)(i % g().nshards) == g().shard; }
inline bool first() { return g().shard == 0; }

inline void state(uint64_t h) { g().states.insert(h); }
inline void transition(uint64_t n = 1) { g().transitions += n; }
inline void eval(uint64_t n = 1) { g().evaluations += n; }
inline void trace(uint64_t n = 1) { g().traces += n; }
inline void nontrivial(uint64_t h) { if (g().nontrivial.size() < 20000000) g().nontrivial.insert(h); }
inline void outcome(uint64_t h) { if (g().outcomes.size() < 1000000) g().outcomes.insert(h); }
inline void sample(const std::string& s) { if (g().samples.size() < 6) g().samples.push_back(s); }
inline void extra(const std::string& k, uint64_t n = 1) { g().extra[k] += n; }

// `sig` identifies what fails and is stable across runs; `detail` is the concrete execution.
inline void violation(const std::string& sig, const std::string& detail)
{
    auto& G = g();
    if (G.viol_count[sig]++ == 0) G.viol[sig] = detail;
}
inline bool expect(bool ok, const std::string& sig, const std::string& detail = "")
{
    if (!ok) violation(sig, (detail.empty() ? std::string() : detail + " @ ") + g().sh->ctx);
    return ok;
}
#define VH_EXPECT(cond, sig, ...)                                                                 \
    do { if (!(cond)) ::vh::violation(sig, ::vh::str(__VA_ARGS__) + " @ " + ::vh::g().sh->ctx); } while (0)

inline void write_out()
{
    Global& G = g();
    FILE* f = fopen(G.out.c_str(), "w");
    if (!f) { perror("VH_OUT"); _exit(91); }
    fprintf(f, "{\"transitions\":%llu,\"evaluations\":%llu,\"traces\":%llu,", (unsigned long long)G.transitions,
            (unsigned long long)G.evaluations, (unsigned long long)G.traces);
    auto dump = [&](const char* n, const std::unordered_set<uint64_t>& s) {
        std::string bin = G.out + "." + n;
        FILE* b = fopen(bin.c_str(), "wb");
        std::vector<uint64_t> v(s.begin(), s.end());
        if (!v.empty()) fwrite(v.data(), 8, v.size(), b);
        fclose(b);
    };
    dump("states", G.states); dump("nontrivial", G.nontrivial); dump("outcomes", G.outcomes);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < G.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(G.samples[i]).c_str());
    fprintf(f, "],\"extra\":{");
    bool c = false;
    for (auto& e : G.extra) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(e.first).c_str(), (unsigned long long)e.second); c = true; }
    fprintf(f, "},\"violations\":[");
    c = false;
    for (auto& e : G.viol)
    {
        fprintf(f, "%s{\"sig\":\"%s\",\"detail\":\"%s\",\"count\":%llu}", c ? "," : "", jesc(e.first).c_str(),
                jesc(e.second).c_str(), (unsigned long long)G.viol_count[e.first]);
        c = true;
    }
    fprintf(f, "]}\n");
    fclose(f);
}
inline int finish()
{
    write_out();
    fflush(stdout);
    _exit(0);
}

// Enumerate all words of length `len` over {0..k-1}; f(word). Shards on the word index.
inline void words(int k, int len, const std::function<void(const std::vector<int>&)>& f)
{
    std::vector<int> w(len, 0);
    uint64_t idx = 0;
    while (true)
    {
        if (mine(mix(1, idx) >> 9)) f(w);
        ++idx;
        int i = len - 1;
        while (i >= 0 && ++w[i] == k) w[i--] = 0;
        if (i < 0) break;
    }
}
// The same words, all of them on every shard.
inline void every(int k, int len, const std::function<void(const std::vector<int>&)>& f)
{
    std::vector<int> w(len, 0);
    for (;;)
    {
        f(w);
        int i = len - 1;
        while (i >= 0 && ++w[i] == k) w[i--] = 0;
        if (i < 0) return;
    }
}
inline std::string wstr(const std::vector<int>& w)
{
    std::string s = "[";
    for (size_t i = 0; i < w.size(); ++i) s += (i ? "," : "") + std::to_string(w[i]);
    return s + "]";
}
}  // namespace vh
