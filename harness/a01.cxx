// A01: integer least squares. lambda() against a plain enumeration in long double; reduction() and search() by their contracts.
#include "vh.h"
#include <csetjmp>
#include <algorithm>
#include <Eigen/Core>
#include <Eigen/LU>
#include "core/solver/lambda.h"
using namespace vh;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef long double ld;

static bool g_catch = false;
static jmp_buf g_died;
extern "C" void exit(int rc)
{
    if (g_catch) { g_catch = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}
template <class F> static bool dies(const F& f)
{
    g_catch = true;
    if (setjmp(g_died)) return true;
    f();
    g_catch = false;
    return false;
}

typedef std::vector<std::vector<double>> Mat;   // small dense matrices of the harness
struct Base { int n; Mat L; std::vector<double> D, a; };   // Q = L' D L with L unit lower triangular
struct Near { ld d; std::vector<ld> z; };

// squared distance of integer vector z from a in the metric of Q
static ld dist2(const Base& b, const std::vector<ld>& z)
{
    std::vector<ld> y(b.n);
    ld s = 0;
    for (int k = b.n - 1; k >= 0; --k)
    {
        y[k] = z[k] - (ld)b.a[k];
        for (int i = k + 1; i < b.n; ++i) y[k] -= (ld)b.L[i][k] * y[i];
        s += y[k] * y[k] / (ld)b.D[k];
    }
    return s;
}
struct Search
{
    const Base& b; size_t want; std::vector<Near> best; std::vector<ld> z, y;
    Search(const Base& _b, size_t w) : b(_b), want(w), z(_b.n), y(_b.n) { go(b.n - 1, 0); }
    ld bound() const { return best.size() < want ? HUGE_VALL : best.back().d; }
    void go(int k, ld d)
    {
        if (k < 0)
        {
            Near c{d, z};
            auto it = std::upper_bound(best.begin(), best.end(), c, [](const Near& p, const Near& q) { return p.d < q.d; });
            best.insert(it, c);
            if (best.size() > want) best.pop_back();
            return;
        }
        ld c = b.a[k];
        for (int i = k + 1; i < b.n; ++i) c += (ld)b.L[i][k] * y[i];
        const ld m = roundl(c);
        for (int dir = 1; dir >= -1; dir -= 2)
            for (ld j = dir > 0 ? 0 : 1;; j += 1)
            {
                z[k] = m + dir * j;
                y[k] = z[k] - c;
                const ld e = d + y[k] * y[k] / (ld)b.D[k];
                if (e >= bound() && j > 0) break;   // farther from the centre in this direction: only worse
                if (e < bound()) go(k - 1, e);
                z[k] = m + dir * j;
                y[k] = z[k] - c;
            }
    }
};

static std::string show(const Base& b)
{
    std::string s = "n=" + std::to_string(b.n) + " L=[";
    for (int i = 0; i < b.n; ++i) for (int j = 0; j < i; ++j) s += str(" %g", b.L[i][j]);
    s += " ] D=[";
    for (double d : b.D) s += str(" %g", d);
    s += " ] a=[";
    for (double d : b.a) s += str(" %.10g", d);
    return s + " ]";
}
static MatrixXd covariance(const Base& b)
{
    MatrixXd Q(b.n, b.n);
    for (int i = 0; i < b.n; ++i)
        for (int j = 0; j < b.n; ++j)
        {
            ld s = 0;
            for (int k = std::max(i, j); k < b.n; ++k) s += (ld)b.L[k][i] * (ld)b.D[k] * (ld)b.L[k][j];
            Q(i, j) = (double)s;
        }
    return Q;
}
static uint64_t hbase(const Base& b)
{
    uint64_t h = b.n;
    for (auto& r : b.L) h = hbytes(r.data(), r.size() * 8, h);
    h = hbytes(b.D.data(), b.D.size() * 8, h);
    return hbytes(b.a.data(), b.a.size() * 8, h);
}

// Z: unimodular integer matrix; the code gets Z' Q Z and Z' a, whose nearest integers are Z' times those of (Q, a)
static void fix(const Base& b, const MatrixXd* Z, const std::string& how, std::initializer_list<int> cands, const std::vector<Near>& ref, uint64_t h)
{
    MatrixXd Q = covariance(b);
    VectorXd a = Eigen::Map<const VectorXd>(b.a.data(), b.n);
    if (Z) { Q = (Z->transpose() * Q * *Z).eval(); a = (Z->transpose() * a).eval(); }
    const MatrixXd Zi = Z ? MatrixXd(Z->inverse().array().round().matrix()) : MatrixXd::Identity(b.n, b.n);
    for (int nc : cands)
    {
        VectorXd f(b.n); f.setConstant(NAN);
        double ratio = NAN;
        const bool dead = dies([&] { mc::core::solver::lambda(a, Q, f, mc::Out<double>(ratio), nc); });
        eval();
        const std::string w = show(b) + how + str(" candidates %d", nc);
        if (!vh::expect(!dead, "refused", w + ": a positive definite covariance was refused")) continue;
        bool ok = true;
        std::vector<ld> z(b.n);
        for (int i = 0; i < b.n; ++i) ok = ok && f(i) == std::round(f(i));
        if (!vh::expect(ok, "not-integer", w + ": fixed values are not integers")) continue;
        for (int i = 0; i < b.n; ++i) { ld s = 0; for (int j = 0; j < b.n; ++j) s += (ld)Zi(j, i) * (ld)f(j); z[i] = s; }
        const ld d = dist2(b, z);
        VH_EXPECT(d <= ref[0].d + 1e-7L * (1 + ref[0].d), "not-nearest", "%s: fixed to [%Lg %Lg ...] at squared distance %.9Lg; there is one at %.9Lg", w.c_str(), z[0], b.n > 1 ? z[1] : 0, d, ref[0].d);
        const ld r = ref[0].d / ref[1].d;
        VH_EXPECT(fabsl(ratio - r) <= 1e-6L, "ratio", "%s: ratio %.9g, nearest two are at %.9Lg and %.9Lg", w.c_str(), ratio, ref[0].d, ref[1].d);
        trace();
    }
    // something to search for: rounding each value by itself is not the answer
    bool plain = true;
    for (int i = 0; i < b.n; ++i) { ld s = 0; for (int j = 0; j < b.n; ++j) s += (Z ? (*Z)(j, i) : (i == j)) * ref[0].z[j]; plain = plain && s == roundl((ld)a(i)); }
    if (!plain) nontrivial(h);
    outcome(mix(h & 0, (uint64_t)(int64_t)llroundl(ref[0].d * 1e6L)));
}

static void parts(const Base& b, const MatrixXd* Zin, const std::string& how, const std::vector<Near>& ref)
{
    using namespace mc::core::solver;
    const int n = b.n;
    MatrixXd Q = covariance(b);
    VectorXd a = Eigen::Map<const VectorXd>(b.a.data(), n);
    if (Zin) { Q = (Zin->transpose() * Q * *Zin).eval(); a = (Zin->transpose() * a).eval(); }
    const std::string w = show(b) + how;
    MatrixXd L(n, n), Z(n, n); VectorXd D(n), z(n);
    L.setConstant(NAN); Z.setConstant(NAN); D.setConstant(NAN); z.setConstant(NAN);
    if (!vh::expect(!dies([&] { reduction(Q, a, z, L, D, Z); }), "refused", w + ": reduction refused a positive definite covariance")) return;
    eval();
    bool integer = true, lower = true, reduced = true, order = true;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            integer = integer && Z(i, j) == std::round(Z(i, j));
            if (i == j) lower = lower && std::fabs(L(i, j) - 1) < 1e-9;
            if (j > i) lower = lower && L(i, j) == 0;
            if (j < i) reduced = reduced && std::fabs(L(i, j)) <= 0.5 + 1e-6;
        }
    for (int k = 0; k + 1 < n; ++k) order = order && D(k) + L(k + 1, k) * L(k + 1, k) * D(k + 1) >= D(k + 1) * (1 - 1e-6);
    VH_EXPECT(integer && std::fabs(std::fabs(Z.determinant()) - 1) < 1e-6, "reduction-unimodular", "%s: the decorrelation is not an invertible integer matrix (determinant %g)", w.c_str(), Z.determinant());
    VH_EXPECT(lower && (D.array() > 0).all(), "reduction-factors", "%s: factors are not unit lower triangular and positive", w.c_str());
    VH_EXPECT(reduced, "reduction-size", "%s: an entry of L is above one half", w.c_str());
    VH_EXPECT(order, "reduction-order", "%s: conditional variances are not ordered", w.c_str());
    const MatrixXd A = L.transpose() * D.asDiagonal() * L, B = Z.transpose() * Q * Z;
    const double scale = Q.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() * std::pow(std::max(1.0, Z.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()), 2);
    VH_EXPECT((A - B).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= 1e-10 * scale, "reduction-covariance", "%s: off by %g", w.c_str(), (A - B).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    const VectorXd za = Z.transpose() * a;
    VH_EXPECT((za - z).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= 1e-12 * n * (1 + a.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()) * std::max(1.0, Z.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()), "reduction-values", "%s: off by %g", w.c_str(), (za - z).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
    if (Zin) return;
    // the search itself, on factors that are not reduced
    MatrixXd bl = MatrixXd::Identity(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) bl(i, j) = b.L[i][j];
    const VectorXd bd = Eigen::Map<const VectorXd>(b.D.data(), n);
    for (int nc = 2; nc <= (int)ref.size(); ++nc)
    {
        MatrixXd f(n, nc); VectorXd q(nc);
        f.setConstant(NAN); q.setConstant(NAN);
        if (!vh::expect(!dies([&] { search(a, bl, bd, nc, f, q); }), "refused", w + ": search refused its arguments")) continue;
        eval();
        for (int c = 0; c < nc; ++c)
        {
            std::vector<ld> zz(n);
            bool in = true, again = false;
            for (int i = 0; i < n; ++i) { zz[i] = f(i, c); in = in && f(i, c) == std::round(f(i, c)); }
            for (int e = 0; e < c; ++e) again = again || (f.col(e) - f.col(c)).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() == 0;
            VH_EXPECT(in && !again, "search-candidates", "%s candidates %d: number %d is not a new integer vector", w.c_str(), nc, c);
            const ld d = dist2(b, zz);
            VH_EXPECT(fabsl(d - q(c)) <= 1e-9L * (1 + d), "search-distance", "%s candidates %d: number %d is at %.9Lg, reported %.9g", w.c_str(), nc, c, d, q(c));
            VH_EXPECT(fabsl(d - ref[c].d) <= 1e-9L * (1 + d), "search-order", "%s candidates %d: number %d is at %.9Lg, the %d-th nearest at %.9Lg", w.c_str(), nc, c, d, c + 1, ref[c].d);
        }
    }
}

static uint64_t g_i = 0;   // problems are divided over the shards by their factors
typedef std::vector<double> Vd;
// all combinations of factors and values of n dimensions
template <class F> static void grid(int n, const Vd& Ls, const Vd& Ds, const Vd& As, const F& f)
{
    const int nl = n * (n - 1) / 2;
    Base b{n, Mat(n, Vd(n, 0)), Vd(n), Vd(n)};
    every((int)Ls.size(), nl, [&](const std::vector<int>& wl) {
        int q = 0;
        for (int i = 0; i < n; ++i) { b.L[i][i] = 1; for (int j = 0; j < i; ++j) b.L[i][j] = Ls[wl[q++]]; }
        every((int)Ds.size(), n, [&](const std::vector<int>& wd) {
            for (int i = 0; i < n; ++i) b.D[i] = Ds[wd[i]];
            if (!mine(g_i++)) return;
            every((int)As.size(), n, [&](const std::vector<int>& wa) {
                for (int i = 0; i < n; ++i) b.a[i] = As[wa[i]];
                f(b);
            });
        });
    });
}
static const std::initializer_list<int> C3 = {3}, CALL = {1, 2, 3, 5};

static void plain(const Base& b, bool all)
{
    ctxs(show(b));
    const uint64_t h = hbase(b);
    state(h); transition();
    const Search s(b, all ? 5 : 2);
    fix(b, nullptr, "", all ? CALL : C3, s.best, h);
    if (all) parts(b, nullptr, "", s.best);
}
// every word of elementary operations that add a multiple of one value to another
static void scrambled(const Base& b, int depth, const std::vector<int>& mult)
{
    const Search s(b, 2);
    const int n = b.n, np = n * (n - 1), k = np * (int)mult.size();
    every(k, depth, [&](const std::vector<int>& w) {
        MatrixXd Z = MatrixXd::Identity(n, n);
        for (int e : w)
        {
            const int p = e / (int)mult.size(), m = mult[e % mult.size()], i = p / (n - 1), j0 = p % (n - 1), j = j0 + (j0 >= i);
            Z.col(j) += m * Z.col(i);
        }
        if (Z.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() * Z.inverse().cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() > 3000) { extra("mixings left out: covariance too close to singular for doubles"); return; }
        const std::string how = " mixed by [" + wstr(w) + "]";
        ctxs(show(b) + how);
        uint64_t h = hbase(b);
        for (int e : w) h = mix(h, e + 1);
        state(h); transition();
        fix(b, &Z, how, C3, s.best, h);
        parts(b, &Z, how, s.best);
    });
}
static void refused(const Base& b0)
{
    // one conditional variance at or below zero: not a covariance of anything
    for (int k = 0; k < b0.n; ++k)
        for (double bad : {-1.0, -0.25, 0.0})
        {
            Base b = b0;
            b.D[k] = bad;
            const std::string w = show(b);
            ctxs(w);
            const MatrixXd Q = covariance(b);
            const VectorXd a = Eigen::Map<const VectorXd>(b.a.data(), b.n);
            VectorXd f(b.n); double ratio = 0;
            VH_EXPECT(dies([&] { mc::core::solver::lambda(a, Q, f, mc::Out<double>(ratio)); }), "indefinite-accepted", "%s: a covariance that is not positive definite was used", w.c_str());
            eval(); state(hbase(b)); transition();
        }
}

int main()
{
    init();
    setvbuf(stderr, nullptr, _IOFBF, 1 << 16);
    if (!freopen("/dev/null", "w", stdout)) return 2;   // check() prints
    const Vd A12 = {0, 0.25, 0.5, -0.5, 0.4375, -0.4375, 1.5, -2.75, 17.125, -1000003.375, 67108864.5, 3000000000.25, -5000000000.4375};
    grid(1, {0}, {0x1p-20, 0x1p-6, 0.25, 1, 1.5, 16, 4096}, A12, [](const Base& b) { plain(b, true); });
    grid(2, {-60.25, -3.5, -1.5, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1.5, 3.5, 60.25}, {0x1p-20, 0x1p-6, 0.25, 1, 1.5, 16, 4096}, A12, [](const Base& b) { plain(b, true); });
    grid(3, {-1.5, -0.5, -0.25, 0, 0.75, 3.5}, {0x1p-6, 0.75, 64}, {0, 0.25, 0.5, -0.4375, -2.5, 1000003.375}, [](const Base& b) { plain(b, true); });
    grid(4, {-0.5, 0.25, 0.75}, thorough() ? Vd{0x1p-6, 0.75, 64} : Vd{0x1p-6, 16}, {0.25, 0.5, -2.4375}, [](const Base& b) { plain(b, thorough()); });
    grid(5, thorough() ? Vd{-0.5, 0.75} : Vd{0.75}, {0x1p-6, 16}, {0.25, -2.4375}, [](const Base& b) { plain(b, true); });
    if (thorough()) grid(6, {0.5, -0.75}, {0.5}, {0.25, -2.4375}, [](const Base& b) { plain(b, false); });
    grid(2, {0.25, -0.75}, {0.25, 16}, {0.25, 0.5, -2.4375}, [](const Base& b) { for (int d = 1; d <= 4; ++d) scrambled(b, d, {1, -1, 7}); });
    grid(3, {0.25, -0.75}, {0.25, 16}, {0.25, -2.4375}, [](const Base& b) { for (int d = 1; d <= (thorough() ? 3 : 2); ++d) scrambled(b, d, {1, -1, 7}); });
    grid(4, {0.25}, {0.25, 16}, {0.25, -2.4375}, [](const Base& b) { for (int d = 1; d <= (thorough() ? 3 : 2); ++d) scrambled(b, d, {1, -3}); });
    grid(8, {0.375}, {0.0625}, {0.25, -2.4375}, [](const Base& b) { scrambled(b, 1, {1, 5}); });
    for (int n : {1, 2, 3, 4}) grid(n, {0.25, -1.5}, {1}, {0.25}, [](const Base& b) { refused(b); });
    return finish();
}
