// X01: random draws keep to and fill their range, text is cut and stripped without loss, folders are made and removed and nothing else.
#include <fcntl.h>
#include <unistd.h>
#include <experimental/filesystem>
#include <fstream>
#include <set>
#include "vh.h"
#include "common/random.h"
#include "common/matrix_defs.h"
#include "utils/file.h"
#include "utils/split_string.h"
#include "utils/strip_string.h"
namespace fs = std::experimental::filesystem;
using namespace mc;
using namespace vh;

// ---- random numbers: the generators are deterministic, so a history of draws is a history like any other
struct Fill { double lo = 1e300, hi = -1e300; int n = 0; };
static void one(double v, double lo, double hi, Fill& f, const std::string& where)
{
    expect(std::isfinite(v) && v >= std::min(lo, hi) && v <= std::max(lo, hi), "uniform-within-bounds", where + str(": drew %.17g", v));
    f.lo = std::min(f.lo, v); f.hi = std::max(f.hi, v); ++f.n;
    eval();
}
static void filled(const Fill& f, double lo, double hi, const std::string& where)
{
    const double w = hi - lo;
    expect(f.n < 400 || (std::fabs(f.lo - std::min(lo, hi)) <= 0.1 * std::fabs(w) && std::fabs(f.hi - std::max(lo, hi)) <= 0.1 * std::fabs(w)), "uniform-fills-bounds", where + str(": %d draws all lie within [%.9g, %.9g]", f.n, f.lo, f.hi));
}
template <int R, int C> static void fixedUniform(double lo, double hi, int draws, const std::string& where)
{
    typedef Eigen::Matrix<double, R, C> M;
    Fill f; std::vector<Fill> each(R * C);
    for (int i = 0; i < draws; ++i)
    {
        const M m = randomUniformat<M>(lo, hi);
        for (int k = 0; k < m.size(); ++k) { one(m(k), lo, hi, f, where); one(m(k), lo, hi, each[k], where); }
        transition();
        state(hbytes(m.data(), sizeof(double) * m.size()));
    }
    filled(f, lo, hi, where);
    for (auto& e : each) filled(e, lo, hi, where + ", one element");
}
static void uniform()
{
    const std::vector<double> B{-1000, -2.5, -1, -0.3, 0, 1e-6, 0.25, 0.5, 1, 1.5, 2, 3.75, 1e6};
    uint64_t n = 0;
    const int draws = thorough() ? 20000 : 1500;
    for (double lo : B) for (double hi : B)
    {
        if (hi < lo || !mine(n++)) continue;
        const std::string w = str("uniform between %g and %g", lo, hi);
        ctxs(w);
        fixedUniform<1, 1>(lo, hi, draws, w + ", 1 x 1");
        fixedUniform<3, 1>(lo, hi, draws, w + ", 3 x 1");
        fixedUniform<2, 3>(lo, hi, draws, w + ", 2 x 3");
        for (int r = 0; r <= 4; ++r) for (int c = 0; c <= 3; ++c)
        {
            Fill f;
            const std::string s = w + str(", %d x %d", r, c);
            for (int i = 0; i < draws / 2; ++i)
            {
                const Eigen::MatrixXd m = randomUniform(lo, hi, r, c);
                if (m.rows() != r || m.cols() != c) { violation("random-shape", s + str(": gave %d x %d", (int)m.rows(), (int)m.cols())); break; }
                for (int k = 0; k < m.size(); ++k) one(m(k), lo, hi, f, s);
                transition();
            }
            if (r && c) filled(f, lo, hi, s);
            outcome(mix(hbytes(&f.lo, 8), hbytes(&f.hi, 8)));
        }
        nontrivial(hstr(w));
        trace();
    }
}
template <class F> static void moments(F draw, int n, const std::string& where)
{
    std::vector<double> v;
    while ((int)v.size() < n) { const Eigen::MatrixXd m = draw(); for (int k = 0; k < m.size(); ++k) v.push_back(m(k)); transition(); if (!m.size()) return; }
    long double s = 0, q = 0, c = 0; int above = 0, in1 = 0;
    for (size_t i = 0; i < v.size(); ++i) { s += v[i]; q += (long double)v[i] * v[i]; above += v[i] > 0; in1 += std::fabs(v[i]) < 1; if (i) c += (long double)v[i] * v[i - 1]; }
    const long double N = v.size(), dev = 9 / sqrtl(N);
    const bool ok = fabsl(s / N) < dev && fabsl(q / N - 1) < 1.5L * dev && fabsl(above / N - 0.5L) < dev / 2 && fabsl(in1 / N - 0.6827L) < dev / 2 && fabsl(c / N) < dev;
    expect(ok, "normal-moments", where + str(": over %d numbers mean %.4Lg, mean square %.4Lg, %.3Lf positive, %.3Lf within one deviation, successive product %.4Lg", (int)v.size(), s / N, q / N, above / N, in1 / N, c / N));
    std::set<double> d(v.begin(), v.end());
    expect(d.size() > v.size() * 0.999, "normal-distinct", where + ": numbers repeat");
    eval(); state(hstr(where)); outcome(hbytes(&v[0], 8));
}
static void normal()
{
    const int n = thorough() ? 2000000 : 200000;
    if (mine(900001)) moments([] { return Eigen::MatrixXd(randomNormal<Eigen::Matrix<double, 1, 1>>()); }, n, "normal, 1 x 1");
    if (mine(900002)) moments([] { return Eigen::MatrixXd(randomNormal<Vec3>()); }, n, "normal, 3 x 1");
    if (mine(900003)) moments([] { return Eigen::MatrixXd(randomNormal<Mat6>()); }, n, "normal, 6 x 6");
    if (mine(900004)) moments([] { return Eigen::MatrixXd(randomNormal<Eigen::Matrix<double, 2, 5>>()); }, n, "normal, 2 x 5");
    for (int r = 0; r <= 5; ++r) for (int c = 1; c <= 4; ++c) if (mine(910000 + r * 10 + c))
    {
        const Eigen::MatrixXd m = c == 1 ? randomNormal(r) : randomNormal(r, c);
        expect(m.rows() == r && m.cols() == c, "random-shape", str("normal: %d x %d for %d x %d", (int)m.rows(), (int)m.cols(), r, c));
        moments([&] { return c == 1 ? randomNormal(r) : randomNormal(r, c); }, n / 8, str("normal, %d x %d", r, c));
    }
}

// ---- text
static void text(int len)
{
    static const char A[5] = {'a', 'b', '/', ' ', '\0'};
    static const char D[4] = {'/', ' ', 'b', '\0'};
    for (int n = 0; n <= len; ++n) words(5, n, [&](const std::vector<int>& w) {
        std::string s;
        for (int c : w) s.push_back(A[c]);
        std::string shown; for (char c : s) shown += c ? std::string(1, c) : std::string("\\0");
        ctxs("text \"" + shown + "\"");
        trace();
        for (char d : D)
        {
            const auto p = d == ' ' ? utils::split_string(s) : utils::split_string(s, d);
            std::string back;
            bool clean = true;
            for (size_t i = 0; i < p.size(); ++i) { if (i) back.push_back(d); back += p[i]; clean = clean && p[i].find(d) == std::string::npos; }
            const std::string where = "\"" + shown + str("\" split at '%c'", d ? d : '0');
            VH_EXPECT(clean, "split-pieces", "%s: a piece still contains it", where.c_str());
            VH_EXPECT(back == s || back + d == s, "split-lossless", "%s: the %zu pieces are not the text", where.c_str(), p.size());
            VH_EXPECT(p.size() == (size_t)std::count(s.begin(), s.end(), d) + (!s.empty() && s.back() != d), "split-count", "%s: %zu pieces", where.c_str(), p.size());
            transition(); eval();
            state(mix(hstr(s), d));
            outcome(mix(p.size(), p.empty() ? 0 : hstr(p[0])));
        }
        if (n <= len - 2) for (int m = 0; m < 32; ++m)
        {
            std::vector<char> rm; std::string want;
            for (int i = 0; i < 5; ++i) if (m >> i & 1) rm.push_back(A[i]);
            for (int c : w) if (!(m >> c & 1)) want.push_back(A[c]);
            VH_EXPECT(strip_string(s, rm) == want, "strip", "\"%s\" without set %d is \"%s\"", shown.c_str(), m, strip_string(s, rm).c_str());
            if (m == 8) VH_EXPECT(strip_string(s) == want, "strip", "\"%s\" without blanks is \"%s\"", shown.c_str(), strip_string(s).c_str());
            transition(); eval();
        }
    });
}

// ---- folders: every history of making and removing, against a model of the tree (path -> is a folder)
static const char* PATHS[8] = {"a", "a/b", "a/b/c", "a/f", "d", "d/", "e/../d/g", "a/b/../x"};
static std::map<std::string, int> look(const fs::path& root)
{
    std::map<std::string, int> m;
    for (auto& e : fs::recursive_directory_iterator(root)) m[e.path().string().substr(root.string().size() + 1)] = fs::is_directory(e.path()) ? 1 : 0;
    return m;
}
static void folders(const std::string& dir, int len)
{
    uint64_t k = 0;
    const fs::path root = dir + "/t";
    // operations: make path i, remove path i, write a file a/f, write a file d
    for (int n = 1; n <= len; ++n) words(14, n, [&](const std::vector<int>& w) {
        ++k;
        fs::remove_all(root); fs::create_directories(root);
        std::map<std::string, int> model;
        trace();
        std::string said;
        for (size_t i = 0; i < w.size(); ++i)
        {
            static const int MK[6] = {0, 1, 2, 3, 4, 5}, RM[6] = {0, 1, 2, 3, 4, 5};
            const int op = w[i];
            std::string p = op < 6 ? PATHS[MK[op]] : op < 12 ? PATHS[RM[op - 6]] : op == 12 ? "a/f" : "d";
            said += str("%s %s; ", op < 6 ? "make" : op < 12 ? "remove" : "write", p.c_str());
            ctxs(said);
            std::string clean = p; if (clean.back() == '/') clean.pop_back();
            const std::string full = root.string() + "/" + p;
            bool threw = false;
            if (op >= 12)
            {
                const std::string parent = clean.find('/') == std::string::npos ? "" : clean.substr(0, clean.rfind('/'));
                if ((!parent.empty() && (!model.count(parent) || !model[parent])) || (model.count(clean) && model[clean])) continue;
                std::ofstream(full) << "kept";
                model[clean] = 0;
                continue;
            }
            try { if (op < 6) { if (i % 2) utils::makeDirectoryIfNotExist(full); else utils::makeDirectoryIfNotExist(fs::path(full)); } else if (i % 2) utils::removeDirectoryIfExist(fs::path(full)); else utils::removeDirectoryIfExist(full); }
            catch (const fs::filesystem_error&) { threw = true; }
            transition(); eval();
            bool blocked = false;   // a file stands where a folder has to be
            std::vector<std::string> chain;
            for (size_t at = clean.find('/'); ; at = clean.find('/', at + 1)) { chain.push_back(clean.substr(0, at)); if (at == std::string::npos) break; }
            if (op < 6)
            {
                for (auto& c : chain) if (model.count(c) && !model[c]) blocked = true;
                if (!blocked) for (auto& c : chain) model[c] = 1;
                if (!blocked) VH_EXPECT(!threw, "folder-made", "%s: refused though nothing is in the way", said.c_str());
            }
            else
            {
                VH_EXPECT(!threw, "folder-removed", "%s: refused", said.c_str());
                if (model.count(clean) && model[clean])
                    for (auto it = model.begin(); it != model.end();) it = it->first == clean || it->first.compare(0, clean.size() + 1, clean + "/") == 0 ? model.erase(it) : std::next(it);
            }
            const auto real = look(root);
            VH_EXPECT(real == model, op < 6 ? "folder-made" : "folder-removed", "%s: %zu entries on disk, %zu expected", said.c_str(), real.size(), model.size());
            for (auto& e : real) if (!e.second) { std::ifstream f(root.string() + "/" + e.first); std::string c; f >> c; VH_EXPECT(c == "kept", "file-kept", "%s: %s no longer holds what was written", said.c_str(), e.first.c_str()); }
            uint64_t h = 0; for (auto& e : real) h = mix(h, mix(hstr(e.first), e.second));
            state(h); outcome(h);
        }
        nontrivial(hstr(said));
    });
    fs::remove_all(root);
}

int main()
{
    init();
    const std::string dir = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/x01";
    fs::create_directories(dir);
    uniform();
    normal();
    text(thorough() ? 9 : 7);
    folders(dir, thorough() ? 5 : 4);
    return finish();
}
