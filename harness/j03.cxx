// J03: the state of the IMU integration is a manifold with plus and minus, its error states are values, and RK4 is RK4.
#include "vh.h"
#include "rots.h"
#include "common/math/rk4.h"
#include "models/imu_state.h"
using namespace mc;
using namespace vh;
using models::ImuErrorState;
using models::ImuState;
typedef Eigen::Matrix<long double, 3, 3> M3;
typedef Eigen::Matrix<long double, 3, 1> V3;

// ---- error states are values: whatever is done with one of them, its parts are its own
typedef std::array<double, 9> Nine;
struct Slot
{
    std::unique_ptr<ImuErrorState> p;
    Nine m;
};
static Nine val(int k) { Nine n; for (int i = 0; i < 9; ++i) n[i] = k * 10 + i + 0.5; return n; }
static Vec9 vec(const Nine& n) { return Eigen::Map<const Vec9>(n.data()); }
static ImuErrorState make(int k) { ImuErrorState e; e = vec(val(k)); return e; }
static const char* OPS[] = {"write whole", "write parts", "write one element", "new from slot", "assign slot", "new from expression", "assign expression", "new from function", "swap", "destroy", "through a vector", "parts from slot"};
static const int NOP = 12;
template <int N> static void histories(int D)
{
    const int A = NOP * N * (N - 1);
    words(A, D, [&](const std::vector<int>& w) {
        static long n = 0;
        if (++n % 1024 == 0) ctx("word %ld", n);
        Slot s[N];
        for (int i = 0; i < N; ++i) { s[i].p.reset(new ImuErrorState); *s[i].p = vec(val(90 + i)); s[i].m = val(90 + i); }
        uint64_t h = 0;
        for (size_t k = 0; k < w.size(); ++k)
        {
            const int i = w[k] % N, o = (i + 1 + w[k] / N % (N - 1)) % N;
            Slot &a = s[i], &b = s[o];
            const Nine n = val(k + 1);
            switch (w[k] / N / (N - 1))
            {
            case 0: *a.p = vec(n); a.m = n; break;
            case 1: a.p->alpha = vec(n).head<3>(); a.p->beta = vec(n).segment<3>(3); a.p->gamma = vec(n).tail<3>(); a.m = n; break;
            case 2: (*a.p)(4) = n[0]; a.p->gamma(1) = n[1]; a.m[4] = n[0]; a.m[7] = n[1]; break;
            case 3: a.p.reset(new ImuErrorState(*b.p)); a.m = b.m; break;
            case 4: *a.p = *b.p; a.m = b.m; break;
            case 5: a.p.reset(new ImuErrorState(*b.p * 2.0 + vec(n))); for (int j = 0; j < 9; ++j) a.m[j] = b.m[j] * 2 + n[j]; break;
            case 6: *a.p = *a.p + 0.5 * *b.p; for (int j = 0; j < 9; ++j) a.m[j] = a.m[j] + 0.5 * b.m[j]; break;
            case 7: a.p.reset(new ImuErrorState(make(k + 1))); a.m = n; break;
            case 8: std::swap(*a.p, *b.p); std::swap(a.m, b.m); break;
            case 9: b.p.reset(new ImuErrorState); *b.p = vec(n); b.m = n; break;
            case 10: { std::vector<ImuErrorState> v; v.push_back(*a.p); v.push_back(*b.p); v.push_back(make(k + 1)); v.erase(v.begin()); *a.p = v[0]; a.m = b.m; break; }
            case 11: a.p->alpha = b.p->gamma; a.p->beta = b.p->alpha; for (int j = 0; j < 3; ++j) a.m[j] = b.m[6 + j]; for (int j = 0; j < 3; ++j) a.m[3 + j] = b.m[j]; break;
            }
            transition();
            for (int q = 0; q < N; ++q)
            {
                const ImuErrorState& e = *s[q].p;
                bool whole = true, parts = true;
                for (int j = 0; j < 9; ++j) whole = whole && e(j) == s[q].m[j];
                for (int j = 0; j < 3; ++j) parts = parts && e.alpha(j) == s[q].m[j] && e.beta(j) == s[q].m[3 + j] && e.gamma(j) == s[q].m[6 + j];
                eval();
                if (!whole || !parts)
                {
                    std::string t;
                    for (size_t j = 0; j <= k; ++j) t += str("%s%s %d", j ? ", " : "", OPS[w[j] / N / (N - 1)], w[j] % N);
                    ctx("%s", t.c_str());
                    expect(whole, "an error state has the value it was given", t);
                    expect(parts, "the parts of an error state are its own", t);
                    return;
                }
                h = mix(h, hbytes(s[q].m.data(), 72));
            }
            state(h);
        }
        nontrivial(h);
        outcome(h);
    });
}

// ---- plus and minus
static M3 mat(const math::Quat<double>& q)  // rotation that takes v to q v q^-1
{
    long double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    M3 m;
    m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return m;
}
static M3 expm(const Vec3& v)
{
    V3 u = v.cast<long double>();
    long double t = u.norm();
    M3 k;
    k << 0, -u(2), u(1), u(2), 0, -u(0), -u(1), u(0), 0;
    if (t < 1e-6L) return M3::Identity() + k + k * k / 2;
    return M3::Identity() + sinl(t) / t * k + (1 - cosl(t)) / (t * t) * k * k;
}
static ImuState st(const Vec3& a, const Vec3& b, const math::Quat<double>& q) { ImuState s; s.alpha = a; s.beta = b; s.gamma = q; return s; }
static double gap(const ImuState& x, const ImuState& y)
{
    return worst<double>({(x.alpha - y.alpha).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (x.beta - y.beta).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (double)(mat(x.gamma) - mat(y.gamma)).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()});
}
static double rgap(const ImuState& x, const Vec3& a, const Vec3& b, const M3& r)
{
    return worst<double>({(x.alpha - a).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (x.beta - b).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (double)(mat(x.gamma) - r).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), fabs(x.gamma.arr_.norm() - 1)});
}
static void manifold()
{
    auto Q = rots(thorough() ? 24 : 12);
    std::vector<Vec3> tr = {Vec3(0, 0, 0), Vec3(1, 2, 3), Vec3(-4, 0.5, 100)};
    std::vector<Vec3> dir;
    for (int m = 0; m < 27; ++m) { Vec3 d(m % 3 - 1, m / 3 % 3 - 1, m / 9 - 1); if (d.norm() > 0) dir.push_back(d.normalized()); }
    dir.push_back(Vec3(0.3, -0.5, 0.7).normalized());
    std::vector<double> ang = {0, 1e-12, 1e-8, 1e-6, 1e-4, 0.01, 0.5, 1.5, M_PI / 2, 2.5, 3.0, 3.14};
    for (size_t qi = 0; qi < Q.size(); ++qi)
        for (size_t ti = 0; ti < tr.size(); ++ti)
        {
            if (!mine(mix(qi, ti))) continue;
            const Vec3 a = tr[ti], b = tr[(ti + 1) % tr.size()];
            const ImuState x = st(a, b, Q[qi]);
            const ImuState x0 = x;
            std::vector<ImuState> ys;
            for (size_t di = 0; di < dir.size(); ++di)
                for (size_t ai = 0; ai < ang.size(); ++ai)
                {
                    const Vec3 da = 0.5 * tr[(di + ai) % 3], db = -tr[(di + 2 * ai) % 3], g = ang[ai] * dir[di];
                    ImuErrorState d; d.alpha = da; d.beta = db; d.gamma = g;
                    auto where = str("attitude %zu, direction %zu, angle %g", qi, di, ang[ai]);
                    ctx("%s", where.c_str());
                    state(mix(mix(qi, ti), mix(di, ai)));
                    const ImuState y = x + d;
                    const M3 want = mat(Q[qi]) * expm(g);
                    transition();
                    expect(rgap(y, a + da, b + db, want) < 1e-12 * 100, "plus moves positions and turns the attitude about its own axes", where + str(": %g", rgap(y, a + da, b + db, want)));
                    ImuState z = x; z += d;
                    expect(gap(z, y) < 1e-13 * 100, "x += d is x + d", where);
                    expect(gap(x, x0) == 0, "plus leaves its operand alone", where);
                    const ImuErrorState e = y - x;
                    double m = worst<double>({(e.alpha - da).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (e.beta - db).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), (e.gamma - g).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()});
                    // the logarithm divides by the sine of the angle
                    expect(m < 2e-7, "minus undoes plus", where + str(": %g", m));
                    expect((Vec9(e).head<3>() - e.alpha).norm() + (Vec9(e).segment<3>(3) - e.beta).norm() + (Vec9(e).tail<3>() - e.gamma).norm() == 0, "a difference is one vector in three parts", where);
                    // as a plain vector expression, and back again with the opposite sign
                    const ImuState back = y + ImuErrorState(-1.0 * d);
                    expect(gap(back, x) < 1e-12 * 100, "going back undoes going", where);
                    nontrivial(mix(mix(qi, ti), mix(di, ai)));
                    if ((di + ai) % 29 == 0) ys.push_back(y);
                }
            // between any two states
            for (size_t i = 0; i < ys.size(); ++i)
                for (size_t j = 0; j < ys.size(); ++j)
                {
                    const ImuErrorState d = ys[j] - ys[i];
                    auto where = str("attitude %zu, states %zu and %zu", qi, i, j);
                    transition();
                    expect(gap(ys[i] + d, ys[j]) < 2e-7, "x + (y - x) is y", where + str(": %g", gap(ys[i] + d, ys[j])));
                    expect(d.gamma.norm() < M_PI + 1e-9, "a difference goes the short way round", where + str(": %g", d.gamma.norm()));
                    if (i == j) expect(d.norm() < 1e-7, "x - x is zero", where);
                    // the same attitude under the other sign of its quaternion
                    ImuState n = ys[j]; n.gamma.arr_ = -n.gamma.arr_;
                    const ImuErrorState dn = n - ys[i];
                    expect(gap(ys[i] + dn, ys[j]) < 2e-7, "the sign of a quaternion does not matter", where);
                    outcome(hbytes(d.data(), 72));
                }
            // as ten numbers
            Vec10 v; v << x.alpha, x.beta, x.gamma.arr_;
            ImuState c(v), d2; d2 = v; ImuState e2(c), f2; f2.setIdentity(); f2 = c;
            bool eq = true;
            for (int i = 0; i < 10; ++i) eq = eq && c(i) == v(i) && d2(i) == v(i) && e2(i) == v(i) && f2(i) == v(i);
            expect(eq && gap(c, x) == 0, "a state is its ten numbers, in order", str("attitude %zu", qi));
            ImuState id; id.setIdentity();
            expect(rgap(id, Vec3::Zero(), Vec3::Zero(), M3::Identity()) == 0, "identity", "");
        }
}

// ---- RK4
typedef Eigen::Matrix<double, 3, 1> V;
typedef Eigen::Matrix<long double, 3, 1> VL;
template <class F> static VL rk4(F f, long double h, const VL& x)
{
    VL k1 = f(x), k2 = f(VL(x + h / 2 * k1)), k3 = f(VL(x + h / 2 * k2)), k4 = f(VL(x + h * k3));
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
static void integrator()
{
    // quadratic systems x'_i = sum a_ij x_j + b_ijk x_j x_k over sparse patterns of coefficients
    const int NC = 6;
    std::vector<double> h = {0, 1e-3, 0.05, 0.25, 1, -0.25};
    words(3, NC, [&](const std::vector<int>& w) {
        double c[NC]; for (int i = 0; i < NC; ++i) c[i] = w[i] - 1;
        for (int k = 0; k < 4; ++k)
        {
            const V x0(0.5 + 0.1 * k, -1 + 0.3 * k, 0.25 * k);
            V g(0.1, 0.2, -0.3);
            int calls = 0;
            auto f = [&](const V& x, const V& p, double s) -> V {
                ++calls;
                return V(c[0] * x(1) + c[1] * x(0) * x(0), c[2] * x(2) + c[3] * x(0) * x(1), c[4] * x(0) + c[5] * x(2) * x(2)) * s + p;
            };
            for (double dt : h)
            {
                calls = 0;
                V y = math::RK4(f, dt, x0, g, 0.7);
                VL want = rk4([&](const VL& x) -> VL { return VL(c[0] * x(1) + c[1] * x(0) * x(0), c[2] * x(2) + c[3] * x(0) * x(1), c[4] * x(0) + c[5] * x(2) * x(2)) * (long double)0.7 + g.cast<long double>(); }, dt, x0.cast<long double>());
                transition();
                double e = (double)(y.cast<long double>() - want).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), scale = 1 + (double)want.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
                auto where = str("coefficients %g %g %g %g %g %g, start %d, step %g", c[0], c[1], c[2], c[3], c[4], c[5], k, dt);
                expect(e < 1e-12 * scale, "a step is that of the fourth-order Runge-Kutta method", where + str(": %g", e));
                expect(calls == 4, "four evaluations", where);
                if (dt == 0) expect(y == x0, "a step of zero stays", where);
                outcome(hbytes(y.data(), 24));
            }
        }
        state(mix(77, hbytes(w.data(), w.size() * sizeof(int))));
    });
    // on the manifold: constant rate and acceleration
    auto Q = rots(6);
    for (auto& q : Q)
        for (double s : {0.1, 1.0, 2.0})
            for (double dt : {0.01, 0.1})
            {
                if (!mine(hbytes(&s, 8) ^ hbytes(&dt, 8) ^ hbytes(q.arr_.data(), 32))) continue;
                const Vec3 om = s * Vec3(0.3, -0.5, 0.2), acc(0.5, 1, -2);
                ImuState x = st(Vec3(1, 2, 3), Vec3(-1, 0.5, 2), q);
                const ImuState x0 = x;
                auto f = [&](const ImuState& y) { ImuErrorState d; d.alpha = y.beta; d.beta = acc; d.gamma = om; return d; };
                for (int i = 0; i < 10; ++i) x = math::RK4(f, dt, x);
                const double t = 10 * dt;
                transition();
                double e = rgap(x, x0.alpha + t * x0.beta + t * t / 2 * acc, x0.beta + t * acc, mat(q) * expm(om * t));
                expect(e < 1e-11, "RK4 on the state follows constant rate and acceleration exactly", str("rate %g, step %g: %g", s, dt, e));
            }
}
int main()
{
    init();
    if (!freopen("/dev/null", "w", stdout)) return 3;
    histories<2>(5);
    histories<3>(thorough() ? 4 : 3);
    manifold();
    integrator();
    sample("write whole 0, new from slot 1, write parts 0, swap");
    return finish();
}
