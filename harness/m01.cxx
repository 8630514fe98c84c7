// M01: quaternion, rotation matrix, dual quaternion and SE3 hold the same rigid transform through every sequence of operations; copies are independent,
// maps write through; constructors and conversions agree.
#include "vh.h"
#include "lie.h"
#include "common/math/dquat.h"
#include "common/math/se3.h"
using namespace mc;
using namespace mc::math;
using namespace vh;
using ref::L;
static std::string vs(const Eigen::VectorXd& v) { std::string s = "("; for (int i = 0; i < v.size(); ++i) s += str("%s%.9g", i ? "," : "", v(i)); return s + ")"; }
template <class A, class B> static double err(const A& m, const B& r) { double e = 0; for (int i = 0; i < r.size(); ++i) { double x = (double)((L)m(i) - r(i)); if (!std::isfinite(x)) return 1e300; e = std::max(e, std::fabs(x)); } return e; }

struct Gen { Vec3 axis; double th; Vec3 t; };   // passive rotation about an axis; then its frame sits at t
struct All   // one transform in every representation
{
    Quat<double> q; SO3<double> R; DQuat<double> D; SE3<double> X;
    ref::M4 T = ref::M4::Identity();   // maps coordinates in the first frame to the second
    double tsum = 0;
    All() : R(SO3<double>::Identity()) {}
    All(const All&) = default;
    All& operator=(const All&) = default;
    explicit All(const Gen& g)
    {
        ref::M3 E = ref::expm<3>(ref::sk(-(g.axis * g.th).cast<L>()));
        T = ref::rigid(E, -(E * g.t.cast<L>()));
        q = Quat<double>::from_axis_angle(g.axis, g.th);
        R = SO3<double>::from_axis_angle(g.axis, g.th);
        D = DQuat<double>(q, g.t);
        X = SE3<double>(R, Vec3(R * Vec3(-g.t)));
        tsum = g.t.norm();
    }
};
static void check(const All& a, const std::string& w)
{
    ref::M3 E = a.T.topLeftCorner<3, 3>(); ref::V3 c = a.T.topRightCorner<3, 1>(), t = -(E.transpose() * c);
    const double te = 1e-13, tt = 1e-13 + a.tsum * 2e-13;
    eval();
    VH_EXPECT(err(a.q.R().matrix(), E) < te && std::fabs(a.q.norm() - 1) < te, std::string("quaternion follows"), "%s", vs(a.q.arr_).c_str());
    VH_EXPECT(err(a.R.matrix(), E) < te, std::string("rotation matrix follows"), "-");
    VH_EXPECT(err(a.D.rotation().R().matrix(), E) < te && err(a.D.R().matrix(), E) < te, std::string("dual quaternion's rotation follows"), "-");
    VH_EXPECT(err(a.D.translation(), t) <= tt, std::string("dual quaternion's translation follows"), "%s", vs(a.D.translation()).c_str());
    VH_EXPECT(err(a.X.rotation().matrix(), E) < te && err(a.X.matrix(), a.T) <= tt, std::string("SE3 follows"), "-");
    for (Vec3 p : {Vec3(0, 0, 0), Vec3(1, -2, 3)})
    {
        ref::V3 b = E * p.cast<L>(), bi = E.transpose() * p.cast<L>(), f = b + c, fi = E.transpose() * (p.cast<L>() - c);
        VH_EXPECT(err(a.q.rotp(p), b) < 1e-12 && err(a.q.rota(p), bi) < 1e-12 && err(a.R.rotp(p), b) < 1e-12 && err(a.R.rota(p), bi) < 1e-12 && err(a.R * p, b) < 1e-12
            && err(a.D.rotp(p), b) < 1e-12 && err(a.D.rota(p), bi) < 1e-12, std::string("rotating a vector"), "%s", vs(p).c_str());
        VH_EXPECT(err(a.D.transformp(p), f) <= tt + 1e-12 && err(a.X.transformp(p), f) <= tt + 1e-12 && err(a.X * p, f) <= tt + 1e-12, std::string("transforming a point"), "%s", vs(p).c_str());
        VH_EXPECT(err(a.D.transforma(p), fi) <= tt + 1e-12 && err(a.X.transforma(p), fi) <= tt + 1e-12, std::string("transforming a point back"), "%s", vs(p).c_str());
    }
    Eigen::Matrix<double, 3, 2> P; P << 1, 4, -2, 5, 3, -6;
    VH_EXPECT(err(a.q.doublerotp(P), (E * P.cast<L>()).eval()) < 1e-11 && err(a.q.doublerota(P), (E.transpose() * P.cast<L>()).eval()) < 1e-11 && err(a.q.rotp(P), (E * P.cast<L>()).eval()) < 1e-11
        && err(a.D.transformp(P), ((E * P.cast<L>()).colwise() + c).eval()) <= tt + 1e-11, std::string("several points at once"), "-");
    Quat<double> back = Quat<double>::from_R(a.q.R()), b2 = a.R.q();
    VH_EXPECT(std::fabs(std::fabs(back.arr_.dot(a.q.arr_)) - 1) < te && std::fabs(std::fabs(b2.arr_.dot(a.q.arr_)) - 1) < te, std::string("matrix to quaternion"), "%s", vs(back.arr_).c_str());
    double pitch = a.q.pitch();
    Quat<double> e = Quat<double>::from_euler(a.q.roll(), pitch, a.q.yaw()), e2(a.q.roll(), pitch, a.q.yaw());
    VH_EXPECT((e.arr_ - e2.arr_).norm() < 1e-15 && (a.q.euler() - Vec3(a.q.roll(), pitch, a.q.yaw())).norm() < 1e-15, std::string("Euler forms agree"), "-");
    if (std::fabs(pitch) < M_PI / 2 - 1e-3) VH_EXPECT(err(e.R().matrix(), E) < 1e-9, std::string("Euler angles and back"), "%s", vs(a.q.euler()).c_str());
}
static const std::vector<Gen> GEN = {
    {Vec3(1, 0, 0), M_PI / 2, Vec3(1, 0, 0)}, {Vec3(0, 1, 0), M_PI / 2, Vec3(0, 0, 0)}, {Vec3(0, 0, 1), M_PI, Vec3(0, -2, 0)},
    {Vec3(1, 1, 1).normalized(), 2 * M_PI / 3, Vec3(0, 0, 3)}, {Vec3(1, -3, 2).normalized(), M_PI - 3e-5, Vec3(-1e6, 2e6, 4e6)},
    {Vec3(3, -2, 1).normalized(), -1e-5, Vec3(1e-3, 0, 5)}, {Vec3(0, -1, 0), 0.7, Vec3(1, 2, 3)}};
static const int NG = (int)GEN.size();
static const int NOPS = 2 * NG + 7;
static std::string opname(int o)
{
    if (o < NG) return str("a=a*g%d", o);
    if (o < 2 * NG) return str("a=g%d*a", o - NG);
    static const char* N[] = {"a=a^-1", "a=a*a", "a=a*b", "b=a", "a<->b", "a=b*a^-1", "a=-a"};
    return N[o - 2 * NG];
}
static void apply(All& a, All& b, int o, int variant)
{
    static const std::vector<All> G(GEN.begin(), GEN.end());
    auto mul = [&](const All& x, const All& y) {   // x then y
        All r;
        if (variant) { r.q = x.q; r.q *= y.q; } else r.q = x.q * y.q;
        r.R = variant ? y.R.times(x.R) : y.R * x.R;
        r.D = variant ? x.D.otimes(y.D) : x.D * y.D;
        r.X = y.X * x.X;
        r.T = y.T * x.T; r.tsum = x.tsum + y.tsum;
        return r;
    };
    auto inv = [&](const All& x) {
        All r;
        if (variant) { r.q = x.q.copy(); r.q.invert(); } else r.q = x.q.inverse();
        r.R = variant ? x.R.transpose() : x.R.inverse();
        r.D = x.D.inverse(); r.X = x.X.inverse(); r.T = ref::inv(x.T); r.tsum = x.tsum;
        return r;
    };
    if (o < NG) { if (variant) { a.q *= G[o].q; a.R = G[o].R * a.R; a.D = a.D * G[o].D; a.X = G[o].X * a.X; a.T = G[o].T * a.T; a.tsum += G[o].tsum; } else a = mul(a, G[o]); }
    else if (o < 2 * NG) a = mul(G[o - NG], a);
    else switch (o - 2 * NG)
    {
    case 0: if (variant) { a.q.invert(); a.R = a.R.inverse(); a.D = a.D.inverse(); a.X = a.X.inverse(); a.T = ref::inv(a.T); } else a = inv(a); break;
    case 1: if (variant) { a.q *= a.q; a.R = a.R * a.R; a.D = a.D * a.D; a.X = a.X * a.X; a.T = (a.T * a.T).eval(); a.tsum *= 2; } else a = mul(a, a); break;
    case 2: a = mul(a, b); break;
    case 3: b = a; break;
    case 4: { All c(a); a = b; b = c; } break;
    case 5: a = mul(b, inv(a)); break;
    case 6: a.q = a.q * -1.0; a.D.arr_ *= -1.0; a.q.normalize(); a.R.rectify(); a.X.rectify(); break;   // same transform
    }
}
static void algebra()
{
    for (int len = 1; len <= (thorough() ? 5 : 4); ++len) words(NOPS, len, [&](const std::vector<int>& w) {
        for (int variant = 0; variant < 2; ++variant)
        {
            std::string s = variant ? "in place:" : "";
            for (int o : w) s += " " + opname(o);
            ctxs(s);
            All a(GEN[6]), b(GEN[3]);
            for (int o : w) { apply(a, b, o, variant); transition(); }
            trace();
            double k[16]; for (int i = 0; i < 16; ++i) k[i] = std::round((double)a.T(i) * 1e7);
            for (double& x : k) x += 0.0;
            state(hbytes(k, sizeof k)); outcome(hbytes(k, 80));
            check(a, s); check(b, s);
        }
    });
}
// memory: objects that own their numbers, objects that refer to a buffer, copies of either
static void memory()
{
    const int NOBJ = 4;   // 0,1: own; 2: refers to buf[0..8); 3: refers to the same memory as 0
    // operations: i <- j (copy assignment), i <- copy of j by constructor, write one element of i, i.real <- j.dual, i.dual <- own quaternion, i *= by scalar, assign vector
    struct Op { int k, i, j; };
    std::vector<Op> ops;
    for (int i = 0; i < NOBJ; ++i) for (int j = 0; j < NOBJ; ++j) if (i != j) ops.push_back({0, i, j});
    for (int i = 0; i < NOBJ; ++i) for (int k = 1; k < 7; ++k) ops.push_back({k, i, (i + 1) % NOBJ});
    for (int len = 0; len <= (thorough() ? 4 : 3); ++len) words((int)ops.size(), len, [&](const std::vector<int>& w) {
        std::string s = "dual quaternion objects:";
        for (int o : w) s += str(" %d(%d,%d)", ops[o].k, ops[o].i, ops[o].j);
        ctxs(s);
        alignas(64) double buf[8]; for (int i = 0; i < 8; ++i) buf[i] = 100 + i;
        DQuat<double> o0(1, 2, 3, 4, 5, 6, 7, 8), o1(Quat<double>(11, 12, 13, 14), Quat<double>(15, 16, 17, 18)), o2(buf), o3(o0.data());
        DQuat<double>* O[NOBJ] = {&o0, &o1, &o2, &o3};
        double M[3][8]; for (int i = 0; i < 8; ++i) { M[0][i] = i + 1; M[1][i] = i + 11; M[2][i] = 100 + i; }
        auto mem = [&](int i) { return M[i == 3 ? 0 : i]; };
        double fresh = 1000;
        for (int x : w)
        {
            const Op& p = ops[x];
            DQuat<double>&A = *O[p.i], &B = *O[p.j];
            double tmp[8]; memcpy(tmp, mem(p.j), sizeof tmp);
            switch (p.k)
            {
            case 0: A = B; memcpy(mem(p.i), tmp, sizeof tmp); break;
            case 1: { DQuat<double> c(B); c[3] = -1; c.dual()[1] = -2; VH_EXPECT(c.real().z() == -1 && c.arr_(5) == -2, std::string("the parts of a copy are the copy's"), "-"); A = c; tmp[3] = -1; tmp[5] = -2; memcpy(mem(p.i), tmp, sizeof tmp); break; }
            case 2: A[6] = ++fresh; mem(p.i)[6] = fresh; break;
            case 3: A.setReal(B.dual()); memcpy(mem(p.i), tmp + 4, 4 * sizeof(double)); break;
            case 4: { Quat<double> q(++fresh, 1, 2, 3); A.dual() = q; double* m = mem(p.i); m[4] = fresh; m[5] = 1; m[6] = 2; m[7] = 3; break; }
            case 5: { Quat<double> c(A.real()); c.x() = ++fresh; VH_EXPECT(c[1] == fresh, std::string("writing a copy of a part"), "-"); break; }   // changes nothing
            case 6: { Eigen::Vector4d v(++fresh, 7, 8, 9); A.real() = v; double* m = mem(p.i); m[0] = fresh; m[1] = 7; m[2] = 8; m[3] = 9; break; }
            }
            transition();
        }
        trace();
        for (int i = 0; i < NOBJ; ++i)
            for (int k = 0; k < 8; ++k)
            {
                double e = mem(i)[k];
                bool ok = O[i]->arr_(k) == e && (*O[i])[k] == e && O[i]->data()[k] == e && (k < 4 ? O[i]->real().arr_(k) : O[i]->dual().arr_(k - 4)) == e && (k < 4 ? O[i]->rotation()[k] == e : true);
                VH_EXPECT(ok, std::string("dual quaternion objects hold what was written to them"), "object %d element %d", i, k);
            }
        for (int k = 0; k < 8; ++k) VH_EXPECT(buf[k] == M[2][k], std::string("a mapped dual quaternion writes through"), "element %d", k);
        state(hbytes(M, sizeof M, 77));
    });
}
static void builders()
{
    std::vector<Vec3> U;
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) if (x || y || z) U.push_back(Vec3(x, y, z).normalized());
    size_t n0 = U.size();
    for (size_t i = 0; i < n0; i += 7) for (double d : {1e-3, 1e-6, 1e-9, 1e-13}) U.push_back((U[i] + d * Vec3(1, -2, 0.5)).normalized());
    uint64_t n = 0;
    for (auto& u : U) for (auto& v : U)
    {
        if (!mine(n++)) continue;
        ctx("from %s to %s", vs(u).c_str(), vs(v).c_str());
        Quat<double> q = Quat<double>::from_two_unit_vectors(u, v);
        SO3<double> R = SO3<double>::from_two_unit_vectors(u, v), R2 = SO3<double>::from_two_unit_vectors(3 * u, 0.5 * v);
        eval(2);
        VH_EXPECT((q.rotp(u) - v).norm() < 1e-6 && std::fabs(q.norm() - 1) < 1e-14, std::string("quaternion between two unit vectors"), "%s", vs(q.arr_).c_str());
        VH_EXPECT((R.rotp(u) - v).norm() < 1e-6 && (R2.rotp(u) - v).norm() < 1e-6 && (R.rota(v) - u).norm() < 1e-6, std::string("rotation between two unit vectors"), "-");
        VH_EXPECT((R.matrix() * R.matrix().transpose() - Mat3::Identity()).norm() < 1e-13, std::string("rotation between two unit vectors is a rotation"), "-");
        nontrivial(hbytes(u.data(), 24, hbytes(v.data(), 24)));
    }
    // Euler angles: roll about x, then pitch, then yaw (passive)
    n = 0;
    for (double r : {-M_PI, -3., -M_PI / 2, -0.3, 0., 1e-9, 1., M_PI / 2, 2.5, M_PI}) for (double p : {-M_PI / 2, -1.5, -0.2, 0., 0.6, 1.57, M_PI / 2}) for (double y : {-M_PI, -2., -M_PI / 2, 0., 0.4, M_PI / 2, 3., M_PI})
    {
        if (!mine(n++)) continue;
        ctx("roll %g pitch %g yaw %g", r, p, y);
        auto ax = [&](int i, double t) { ref::V3 v = ref::V3::Zero(); v(i) = -t; return ref::expm<3>(ref::sk(v)); };
        ref::M3 E = ax(0, r) * ax(1, p) * ax(2, y);
        Quat<double> q = Quat<double>::from_euler(r, p, y), q2(r, p, y);
        eval();
        VH_EXPECT(err(q.R().matrix(), E) < 1e-14 && err(q2.R().matrix(), E) < 1e-14, std::string("Euler angles compose yaw, pitch, roll"), "-");
        VH_EXPECT(std::fabs(q.pitch() - p) < 1e-7, std::string("pitch is recovered"), "%.9g", q.pitch());
        if (std::fabs(p) < 1.56) { auto d = [](double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }; VH_EXPECT(d(q.roll(), r) < 1e-9 && d(q.yaw(), y) < 1e-9, std::string("roll and yaw are recovered"), "%.9g %.9g", q.roll(), q.yaw()); }
    }
    // orthonormalisation
    if (first()) for (size_t i = 0; i < n0; i += 3) for (double th : {0., 0.5, 2., 3.1}) for (int k = 0; k < 9; ++k) for (double d : {0., 1e-9, 1e-3, -5e-2})
    {
        Mat3 m = SO3<double>::exp(th * U[i]).matrix(), m0 = m; m(k) += d;
        ctx("rectify exp(%g %s) with %g on entry %d", th, vs(U[i]).c_str(), d, k);
        SO3<double> R(m), S = R.rectified(); R.rectify();
        SE3<double> X(m, Vec3(1, 2, 3)), Y = X.rectified(); X.rectify();
        eval();
        VH_EXPECT((R.matrix() * R.matrix().transpose() - Mat3::Identity()).norm() < 1e-13 && R.matrix().determinant() > 0 && (R.matrix() - m0).norm() < 2 * std::fabs(d) + 1e-13
            && (S.matrix() - R.matrix()).norm() < 1e-14 && (X.rotation().matrix() - R.matrix()).norm() < 1e-14 && (Y.rotation().matrix() - R.matrix()).norm() < 1e-14 && X.translation() == Vec3(1, 2, 3) && Y.translation() == Vec3(1, 2, 3),
            std::string("orthonormalisation gives a nearby rotation"), "-");
    }
}
int main()
{
    init();
    sample("words over products with 7 generators on either side, inverses, squares, copies and swaps of two transforms, each kept as Quat, SO3, DQuat and SE3");
    sample("words over assignments, copies, element writes and part writes on four dual quaternion objects, two of them maps");
    builders();
    memory();
    algebra();
    finish();
}
