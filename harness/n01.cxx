// N01: the numerical differentiation the repository measures its models with gives the derivative, on the side it was asked for.
#include "vh.h"
#include "lie.h"
#include "common/math/dquat.h"
#include "common/math/se3.h"
#include "common/numerical_jacobian.h"
#include "rots.h"
using namespace mc;
using namespace mc::math;
using namespace vh;
using ref::L;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> LX;
constexpr JacobianSide LE = JacobianSide::LEFT, RI = JacobianSide::RIGHT;

static ref::M3 rot(const Quat<double>& q)   // turns body coordinates into inertial ones
{
    const L w = q[0], x = q[1], y = q[2], z = q[3];
    ref::M3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return R;
}
static Mat3 rotd(const Quat<double>& q) { return rot(q).cast<double>(); }
// an element, its matrix and what that does to a point; SO3 and SE3 hold the matrix that turns body coordinates by rotp
template <class T> struct Kind;
template <> struct Kind<Quat<double>> { static constexpr int D = 3; static constexpr const char* name = "Quat"; static Quat<double> make(const Quat<double>& q, const Vec3&) { return q; } static Vec3 act(const Quat<double>& x, const Vec3& v) { return x.rota(v); } };
template <> struct Kind<SO3<double>> { static constexpr int D = 3; static constexpr const char* name = "SO3"; static SO3<double> make(const Quat<double>& q, const Vec3&) { return SO3<double>(rotd(q)); } static Vec3 act(const SO3<double>& x, const Vec3& v) { return x.rotp(v); } };
template <> struct Kind<DQuat<double>> { static constexpr int D = 6; static constexpr const char* name = "DQuat"; static DQuat<double> make(const Quat<double>& q, const Vec3& t) { return DQuat<double>(q, t); } static Vec3 act(const DQuat<double>& x, const Vec3& v) { return x.transforma(v); } };
template <> struct Kind<SE3<double>> { static constexpr int D = 6; static constexpr const char* name = "SE3"; static SE3<double> make(const Quat<double>& q, const Vec3& t) { return SE3<double>(SO3<double>(rotd(q)), t); } static Vec3 act(const SE3<double>& x, const Vec3& v) { return x.transformp(v); } };

static LX Ad(int D, const ref::M3& R, const Vec3& t)
{
    if (D == 3) return R;
    LX A = LX::Zero(6, 6);
    A.topLeftCorner(3, 3) = R; A.bottomRightCorner(3, 3) = R; A.bottomLeftCorner(3, 3) = ref::sk(t.cast<L>()) * R;
    return A;
}
static void same(const Eigen::MatrixXd& got, const LX& want, L tol, const char* sig, const std::string& where)
{
    eval(); transition();
    if (got.rows() != want.rows() || got.cols() != want.cols()) { violation(sig, str("%s: %d x %d, should be %d x %d", where.c_str(), (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols())); return; }
    L e = 0; int at = 0;
    for (int i = 0; i < got.size(); ++i) { const L d = fabsl((L)got(i) - want(i)); if (!(d <= e)) { e = d; at = i; } }
    expect(e <= tol, sig, where + str(": element (%d, %d) is %.9g, the derivative is %.9Lg", at % (int)want.rows(), at / (int)want.rows(), got(at), want(at)));
    outcome(mix(std::llround(got(0) * 1e4), std::llround(got(got.size() - 1) * 1e4)));
}

template <class T>
static void group(const std::vector<Quat<double>>& Q, const std::vector<Vec3>& P)
{
    constexpr int D = Kind<T>::D;
    typedef Eigen::Matrix<double, D, 1> V;
    const LX I = LX::Identity(D, D);
    uint64_t n = 0;
    for (size_t a = 0; a < Q.size(); ++a) for (size_t b = 0; b < Q.size(); ++b)
    {
        if (!mine(n++)) continue;
        for (size_t p = 0; p < P.size(); ++p) for (size_t s = 0; s < P.size(); ++s)
        {
            if (D == 3 && (p || s)) continue;
            const T x = Kind<T>::make(Q[a], P[p]), c = Kind<T>::make(Q[b], P[s]);
            const ref::M3 R = rot(Q[a]), C = rot(Q[b]);
            const LX Ax = Ad(D, R, P[p]), Ac = Ad(D, C, P[s]);
            const LX Axi = Ax.inverse(), Aci = Ac.inverse();
            const std::string where = str("%s: attitude %zu, position %zu, constant %zu, %zu", Kind<T>::name, a, p, b, s);
            ctxs(where);
            const L sc = 1 + (D == 6 ? P[p].norm() + P[s].norm() : 0), tol = 3e-7L * sc * sc;
            const auto id = [](const T& y) { return y; };
            const auto inv = [](const T& y) -> T { return y.inverse(); };
            const auto lmul = [&](const T& y) -> T { return c * y; };
            const auto rmul = [&](const T& y) -> T { return y * c; };
            const auto sq = [](const T& y) -> T { return y * y; };
            const auto cst = [&](const T&) -> T { return c; };
            struct F { const char* what; LX l, r; };
            const LX Z = LX::Zero(D, D);
            const F f[6] = {{"the identity", I, I}, {"the inverse", -Axi, -Ax}, {"multiplication from the left", Ac, I}, {"multiplication from the right", I, Aci}, {"the square", I + Ax, Axi + I}, {"a constant", Z, Z}};
            for (int e = 0; e < 2; ++e)
            {
                const double eps = e ? 1e-6 : 1e-8;
                const auto one = [&](int k, auto fun) {
                    const std::string w = where + ", " + f[k].what + (e ? ", step 1e-6" : "");
                    same(compute_jac<LE>(x, fun, eps), f[k].l, tol, "left-derivative", w);
                    same(compute_jac<RI>(x, fun, eps), f[k].r, tol, "right-derivative", w);
                    if (e) return;
                    same(left_jac(x, fun), f[k].l, tol, "left_jac", w);
                    same(right_jac(x, fun), f[k].r, tol, "right_jac", w);
                };
                one(0, id); one(1, inv); one(2, lmul); one(3, rmul); one(4, sq); one(5, cst);
            }
            // further arguments of the function are handed on
            const auto two = [](const T& y, const T& z) -> T { return z * y; };
            same(left_jac(x, two, c), Ac, tol, "left_jac", where + ", with an argument");
            same(right_jac(x, two, c), I, tol, "right_jac", where + ", with an argument");
            // into vectors: a point turned (and moved)
            for (const Vec3& v : {Vec3(1, 0, 0), Vec3(-0.3, 2, 0.7)})
            {
                const ref::V3 lv = v.cast<L>(), rv = R * lv, t = P[p].cast<L>();
                LX l(3, D), r(3, D);
                Eigen::MatrixXd g[4];
                const auto fun = [&](const T& y) -> Vec3 { return Kind<T>::act(y, v); };
                if constexpr (D == 3) { l = -ref::sk(rv); r = -R * ref::sk(lv); }
                else { l << -ref::sk(rv + t), ref::M3::Identity(); r << -R * ref::sk(lv), R; }
                g[0] = compute_jac<LE>(x, fun); g[1] = compute_jac<RI>(x, fun); g[2] = left_jac2(x, fun); g[3] = right_jac2(x, fun);
                const char* nm[4] = {"left-derivative", "right-derivative", "left_jac2", "right_jac2"};
                for (int k = 0; k < 4; ++k) same(g[k], k % 2 ? r : l, tol, nm[k], where + ", a point");
            }
            // from vectors: exp(v) c
            {
                V v = V::Zero();
                for (int i = 0; i < D; ++i) v(i) = std::sin(0.7 * a + 1.1 * b + i) * (i < 3 ? 0.9 : 3);
                const auto fun = [&](const V& u) -> T { return T::exp(u) * c; };
                const auto fum = [&](const V& u) -> T { return c * T::exp(u); };
                LX Jl, Jr;
                if constexpr (D == 3) { Jl = ref::phi<3>(ref::sk(v.template cast<L>())); Jr = ref::phi<3>(ref::sk(-v.template cast<L>())); }
                else { Jl = ref::phi<6>(ref::ad(v.template cast<L>())); Jr = ref::phi<6>(ref::ad(-v.template cast<L>())); }
                same(compute_jac<LE>(v, fun), Jl, tol * 10, "left-derivative", where + ", of an exponential");
                same(compute_jac<RI>(v, fum), Jr, tol * 10, "right-derivative", where + ", of an exponential");
                same(compute_jac<LE>(v, fum), Ac * Jl, tol * 10, "left-derivative", where + ", of a shifted exponential");
                same(compute_jac<RI>(v, fun), Aci * Jr, tol * 10, "right-derivative", where + ", of a shifted exponential");
                same(left_jac3(v, fun), Jl, tol * 10, "left_jac3", where + ", of an exponential");
                same(right_jac3(v, fum), Jr, tol * 10, "right_jac3", where + ", of an exponential");
            }
            state(mix(mix(a, b), mix(p * 4 + s, D)));
            nontrivial(mix(mix(a, b), mix(p * 4 + s, D)));
        }
    }
}

template <int N, int M> static void vectors(int k)
{
    typedef Eigen::Matrix<double, N, 1> X; typedef Eigen::Matrix<double, M, 1> Y;
    for (int j = 0; j < k; ++j) for (int xs = 0; xs < k; ++xs) for (int e = 0; e < 3; ++e)
    {
        if (!mine(j * 100 + xs * 3 + e)) continue;
        Eigen::Matrix<double, M, N> A; X x;
        for (int i = 0; i < M * N; ++i) A(i) = ((i * 7 + j * 5) % 11 - 5) * 0.5;
        for (int i = 0; i < N; ++i) x(i) = ((i * 3 + xs * 4) % 9 - 4) * 0.75;
        const double eps = e == 0 ? 1e-8 : e == 1 ? 1e-6 : 1e-3;
        const std::string where = str("from %d to %d dimensions, matrix %d, point %d, step %g", N, M, j, xs, eps);
        ctxs(where);
        const auto lin = [&](const X& y) -> Y { return A * y; };
        const auto quad = [&](const X& y) -> Y { return A * y * y.sum(); };
        const Eigen::Matrix<double, M, N> q = A * x.sum() + A * x * Eigen::Matrix<double, 1, N>::Ones();
        const L tol = 1e-14L * 200 / eps;
        const auto both = [&](auto f, const Eigen::Matrix<double, M, N>& want, const char* w) {
            same(e == 0 ? compute_jac<LE>(x, f) : compute_jac<LE>(x, f, eps), want.template cast<L>(), tol, "derivative-of-vector", where + w);
            same(compute_jac<RI>(x, f, eps), want.template cast<L>(), tol, "derivative-of-vector", where + w);
        };
        both(lin, A, ", linear"); both(quad, q, ", quadratic");
        state(mix(mix(N * 10 + M, j), xs * 3 + e));
    }
}

int main()
{
    init();
    const auto Q = rots(thorough() ? 24 : 6, thorough());
    const std::vector<Vec3> P{Vec3(0, 0, 0), Vec3(1, -2, 3), Vec3(-20, 7, 0.5)};
    group<Quat<double>>(Q, P); group<SO3<double>>(Q, P); group<DQuat<double>>(Q, P); group<SE3<double>>(Q, P);
    vectors<1, 1>(9); vectors<1, 4>(9); vectors<3, 2>(9); vectors<4, 4>(9); vectors<6, 3>(9); vectors<2, 9>(9);
    return finish();
}
