// U05: what the progress bar shows is what was done and the time it took. The real bar, with the clock of the system
// replaced and its output captured; every combination of total, width, times and progress of the alphabets, in sequence.
#include "vh.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <iostream>
#include <new>

#include "utils/progress_bar.h"

static int64_t now_us = 0;
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept
{
    return time_point(std::chrono::duration_cast<duration>(std::chrono::microseconds(1600000000000000ll + now_us)));
}

static int cap_fd = -1, real_fd = -1;
static std::string taken()
{
    fflush(stdout);
    std::cout.flush();
    off_t n = lseek(cap_fd, 0, SEEK_CUR);
    std::string s(n, 0);
    if (n) { if (pread(cap_fd, &s[0], n, 0) != n) _exit(93); lseek(cap_fd, 0, SEEK_SET); }
    return s;
}

static size_t cells(const std::string& s)   // number of characters, not bytes
{
    size_t n = 0;
    for (unsigned char c : s) if ((c & 0xC0) != 0x80) ++n;
    return n;
}
static std::vector<std::string> glyphs(const std::string& s)
{
    std::vector<std::string> v;
    for (unsigned char c : s) { if ((c & 0xC0) != 0x80) v.emplace_back(); if (v.empty()) v.emplace_back(); v.back() += (char)c; }
    return v;
}
// days:hours:minutes:seconds:milliseconds, leading fields left out
static bool stamp_ms(const std::string& s, double& ms)
{
    ms = 0;
    if (s.empty()) return true;
    std::vector<long> f;
    size_t i = 0;
    while (true)
    {
        size_t j = i;
        while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
        if (j == i) return false;
        f.push_back(atol(s.substr(i, j - i).c_str()));
        if (j == s.size()) break;
        if (s[j] != ':') return false;
        i = j + 1;
    }
    if (f.size() > 5) return false;
    const double unit[5] = {1, 1000, 60e3, 3600e3, 86400e3};
    const long lim[5] = {1000, 60, 60, 24, 1000000000};
    for (size_t k = 0; k < f.size(); ++k)
    {
        long v = f[f.size() - 1 - k];
        if (v >= lim[k]) return false;
        ms += v * unit[k];
    }
    return f.size() == 1 || f[0] > 0;
}

struct Model
{
    int total, width; bool timed; const char* full;
    int64_t start = -1, last = 0; double t0 = 0, tl = 0, el = 0, rate = 1;
};
static const char* FULL[5] = {"█", "═", "#", "⣿", "⠿"};
static const char* THEME[5] = {"solid", "line", "circle", "braille", "braille_spin"};

// one call of print and what it shows
static void step(mc::utils::ProgressBar& b, Model& m, int done, double t, int prev_full)
{
    using namespace vh;
    if (std::isnan(t)) b.print(done); else b.print(done, t);
    std::string s = taken();
    transition();
    if (m.start < 0) { m.start = m.last = now_us; m.t0 = m.tl = t; m.el = 0; m.rate = 1; }
    const bool due = (now_us - m.last) / 1000 > 33 || done == m.total;
    eval();
    if (!due) { VH_EXPECT(s.empty(), "progress is shown at most thirty times a second", "'%s'", s.c_str()); return; }
    m.last = now_us;
    const double el = ((now_us - m.start) / 1000) / 1000.0;
    if (s.rfind(" \r [", 0) != 0) { violation("progress redraws its line", "'" + s + "' @ " + g().sh->ctx); return; }
    size_t e = s.find("]  ", 4);
    if (e == std::string::npos) { violation("progress shows a bar", "'" + s + "' @ " + g().sh->ctx); return; }
    auto gl = glyphs(s.substr(4, e - 4));
    VH_EXPECT((int)gl.size() == m.width, "the bar is as wide as it was asked to be", "%zu for %d", gl.size(), m.width);
    const int full = (int)((int64_t)m.width * done / m.total);
    int n = 0; while (n < (int)gl.size() && gl[n] == m.full) ++n;
    // the cell in progress may be drawn full when it is nearly full
    VH_EXPECT(n == full || (n == full + 1 && 2 * ((int64_t)m.width * done % m.total) > m.total), "the bar is filled as far as the work is done", "%d of %d cells at %d of %d", n, m.width, done, m.total);
    for (int i = full + 1; i < (int)gl.size(); ++i) VH_EXPECT(gl[i] == " ", "the bar is empty beyond what is done", "cell %d '%s'", i, gl[i].c_str());
    // percent
    size_t q = e + 3; char* end; double pc = strtod(s.c_str() + q, &end);
    VH_EXPECT(*end == '%' && std::fabs(pc - 100.0 * done / m.total) <= 0.5 + 1e-9, "the percentage is that of the work done", "%g at %d of %d", pc, done, m.total);
    size_t o = s.find('[', e), lt = s.find('<', e), cm = s.find(", ", e), it = s.find("it/s", e);
    if (o == std::string::npos || lt == std::string::npos || cm == std::string::npos || it == std::string::npos || !(o < lt && lt < cm && cm < it)) { violation("progress shows the times and the rate", "'" + s + "' @ " + g().sh->ctx); return; }
    double ms;
    std::string es = s.substr(o + 1, lt - o - 1), ls = s.substr(lt + 1, cm - lt - 1);
    if (!stamp_ms(es, ms)) violation("times shown are days, hours, minutes, seconds and milliseconds", "'" + es + "' @ " + g().sh->ctx);
    else VH_EXPECT(std::fabs(ms - el * 1000) <= 1.0, "the elapsed time shown is the time since the start", "'%s' after %.3f s", es.c_str(), el);
    outcome(hstr(es));
    if (!stamp_ms(ls, ms)) violation("times shown are days, hours, minutes, seconds and milliseconds", "'" + ls + "' @ " + g().sh->ctx);
    else if (done > 0 && el > 0)   // 30000 years and more may be left out
    {
        const double left = el * 1000 * (m.total - done) / done;
        if (left < 1e15) VH_EXPECT(std::fabs(ms - left) <= 1.0 + 1e-9 * left, "the remaining time shown is that of the work left at the mean rate", "'%s' for %.3f s", ls.c_str(), left / 1000);
    }
    else if (done == 0) VH_EXPECT(ls.empty(), "nothing is known of the remaining time before anything is done", "'%s'", ls.c_str());
    if (el > 0)
    {
        double r = atof(s.c_str() + cm + 2);
        VH_EXPECT(std::fabs(r - done / el) <= 0.00501 + 1e-9 * r, "the rate shown is the mean rate", "%g for %g", r, done / el);
    }
    const bool timed = std::isfinite(m.t0) && std::isfinite(t);
    if (timed)
    {
        const double dt = el - m.el;
        if (dt > 0) m.rate = 0.9 * m.rate + 0.1 * (t - m.tl) / dt; else m.rate = NAN;
        m.tl = t; m.el = el;
        size_t x = s.find("x] ", it);
        double sp = x == std::string::npos ? NAN : atof(s.c_str() + it + 6);
        VH_EXPECT(x != std::string::npos, "the speed against real time is shown when times are given", "'%s'", s.c_str());
        if (std::isfinite(m.rate)) VH_EXPECT(std::fabs(sp - m.rate) <= 0.00501 + 1e-9 * std::fabs(m.rate), "the speed shown is the smoothed ratio of the two times", "%g for %g", sp, m.rate);
    }
    else VH_EXPECT(s.compare(it, std::string::npos, "it/s] ") == 0, "no speed is shown when no times are given", "'%s'", s.c_str());
    state(mix(hstr(s), m.total));
    nontrivial(hstr(es + "<" + ls));
}

int main()
{
    using namespace vh;
    init();
    real_fd = dup(1);
    cap_fd = memfd_create("out", 0);
    if (cap_fd < 0 || dup2(cap_fd, 1) < 0) _exit(94);
    uint64_t c = 0;
    static char mem[sizeof(mc::utils::ProgressBar) + 64] __attribute__((aligned(16)));
    // every duration of an alphabet closed under the carries of the stamp, every share of the work, alone
    std::vector<int64_t> dur;
    for (int64_t u : {1ll, 1000ll, 60000ll, 3600000ll, 86400000ll})
        for (int64_t k : {0, 1, 2, 9, 10, 11, 23, 24, 25, 59, 60, 61, 99, 100, 101, 365, 999, 1000}) for (int64_t d : {-1001, -1000, -1, 0, 1, 59999}) { int64_t v = u * k + d; if (v >= 0 && v < 400ll * 86400000) dur.push_back(v); }
    std::sort(dur.begin(), dur.end()); dur.erase(std::unique(dur.begin(), dur.end()), dur.end());
    for (int64_t ms : dur)
        for (int total : {1, 2, 3, 7, 100, 1000, 86400, 2000000000})
        {
            if (!mine(c++)) continue;
            std::vector<int> ds{0, 1, 2, total / 3, total / 2, total - 1, total};
            std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end());
            for (int d : ds)
            {
                if (d < 0 || d > total) continue;
                for (int w : {0, 1, 10, 100})
                {
                    ctx("bar of %d for %d, %d done after %ld ms", w, total, d, (long)ms);
                    memset(mem, 0xAB, sizeof mem);
                    now_us = 0;
                    auto* b = new (mem) mc::utils::ProgressBar(total, w);
                    Model m{total, w, false, FULL[0]};
                    taken();
                    if (total > 1) step(*b, m, 0, NAN, 0);   // starts the clock
                    else { m.start = m.last = 0; b->print(0); VH_EXPECT(taken().empty(), "progress is shown at most thirty times a second", "at the start"); m.t0 = NAN; }
                    now_us = ms * 1000;
                    step(*b, m, d, NAN, 0);
                    b->~ProgressBar();
                    VH_EXPECT(taken() == "\n", "the bar ends its line", "");
                    trace();
                }
            }
        }
    // every sequence of calls: progress x time passed x time of the data, for bars made in either way and every theme
    const int N = thorough() ? 5 : 4;
    const int64_t adv[] = {0, 33999, 34000, 1000000};
    for (int how = 0; how < 2; ++how)
        for (int theme = 0; theme < 5; ++theme)
            for (int timed = 0; timed < 3; ++timed)
                words(12, N, [&](const std::vector<int>& w) {
                    if (w.empty()) return;
                    memset(mem, how ? 0xAB : 0x01, sizeof mem);
                    ctxs(str("bar made %s, theme %s, times %d, calls ", how ? "by init" : "at once", THEME[theme], timed) + wstr(w));
                    mc::utils::ProgressBar* b;
                    const int total = 9, width = 13;
                    if (how) { b = new (mem) mc::utils::ProgressBar(); b->init(total, width); } else b = new (mem) mc::utils::ProgressBar(total, width);
                    switch (theme) { case 0: if (how) b->set_theme_solid(); break; case 1: b->set_theme_line(); break; case 2: b->set_theme_circle(); break; case 3: b->set_theme_braille(); break; default: b->set_theme_braille_spin(); }
                    Model m{total, width, false, FULL[theme]};
                    taken();
                    now_us = 5000;
                    int done = 0; double t = 100;
                    for (int l : w)
                    {
                        now_us += adv[l % 4];
                        done = std::min(total, done + (l / 4 == 0 ? 0 : l / 4 == 1 ? 1 : 4));
                        t += 0.25 * (l / 4);
                        step(*b, m, done, timed == 0 ? NAN : timed == 1 ? t : (done % 2 ? t : NAN), 0);
                    }
                    now_us += 1000000;
                    b->finished();
                    std::string s = taken();
                    VH_EXPECT(s.find("100%") != std::string::npos, "a finished bar shows that all is done", "'%s'", s.c_str());
                    b->~ProgressBar();
                    taken();
                    trace();
                });
    // a bar used again
    if (first())
        for (int d1 = 0; d1 <= 5; ++d1) for (int d2 = 0; d2 <= 7; ++d2)
        {
            ctx("bar for 5 used up to %d, then for 7 up to %d", d1, d2);
            now_us = 0;
            mc::utils::ProgressBar b(5, 20);
            Model m{5, 20, false, FULL[0]};
            taken();
            for (int i = 0; i <= d1; ++i) { now_us += 50000; step(b, m, i, NAN, 0); }
            b.init(7, 10);
            m = Model{7, 10, false, FULL[0]};
            now_us += 3000000;
            for (int i = 0; i <= d2; ++i) { now_us += 50000; step(b, m, i, NAN, 0); }
            trace();
        }
    fflush(stdout);
    dup2(real_fd, 1);
    return finish();
}
