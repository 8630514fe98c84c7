// M02: exp and log of the rotation and pose groups are the matrix exponential and its inverse, at every angle.
#include "vh.h"
#include "lie.h"
#include "common/math/dquat.h"
#include "common/math/se3.h"
using namespace mc;
using namespace mc::math;
using namespace vh;
using ref::L;
typedef Eigen::Matrix<double, 6, 1> E6;
static std::string vs(const Eigen::VectorXd& v) { std::string s = "("; for (int i = 0; i < v.size(); ++i) s += str("%s%.9g", i ? "," : "", v(i)); return s + ")"; }
static const double NEAR = M_PI - 2e-4;
int main()
{
    init();
    std::vector<double> TH = {0, 1e-300, 1e-160, 1e-20, 1e-12, 1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 3.9e-6, 4.1e-6, 7.9e-6, 8.1e-6, 1e-5, 5e-5, 9.9e-5, 1.01e-4, 1.42e-4, 1.99e-4, 2.01e-4, 5e-4,
        1e-3, 1.9e-3, 1.99e-3, 2.01e-3, 2.1e-3, 1e-2, 0.1, 0.5, 1, M_PI / 2 - 1e-9, M_PI / 2, M_PI / 2 + 1e-9, 2, 2 * M_PI / 3, 2.5, 3, 3.1};
    for (double d : {1e-2, 1e-3, 5e-4, 1.5e-4, 1.1e-4, 1.01e-4, 9.9e-5, 9e-5, 5e-5, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14, 0.0}) { TH.push_back(M_PI - d); if (d > 0) TH.push_back(M_PI + d); }
    for (double d : {3.2, 4., 5., 6., 6.28, 2 * M_PI - 1e-3, 2 * M_PI - 1e-5, 2 * M_PI - 1e-7}) TH.push_back(d);
    if (thorough()) for (int i = 1; i < 1200; ++i) TH.push_back(i * 2 * M_PI / 1201);
    std::vector<Vec3> AX;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) AX.push_back(Vec3(x, y, z).normalized());
    for (Vec3 v : {Vec3(-1, 2, -3), Vec3(3, -2, 1), Vec3(1, -3, 2), Vec3(1, 1e-5, -1e-5), Vec3(1e-8, -1, 1e-8), Vec3(1e-3, 2e-3, 1), Vec3(-1, 1e-160, 0), Vec3(1, 1 + 1e-12, 0.3), Vec3(-2, 0.1, 2 - 1e-13)}) AX.push_back(v.normalized());
    std::vector<Vec3> V = {Vec3(0, 0, 0), Vec3(0.3, -2, 5), Vec3(-1e6, 3e6, 2e6), Vec3(1e-7, 0, -1e-9)};
    uint64_t n = 0;
    for (double th : TH) for (auto& a : AX)
    {
        if (!mine(n++)) continue;
        Vec3 w = th * a;
        ctx("angle %.17g about %s", th, vs(a).c_str());
        ref::V3 lw = w.cast<L>();
        ref::M3 E = ref::expm<3>(ref::sk(lw));
        nontrivial(hbytes(w.data(), 24)); outcome(hbytes(&th, 8));
        std::string tag = th < 1e-2 ? "small angle" : std::fabs(th - M_PI) < 1e-2 ? "near pi" : th > M_PI ? "beyond pi" : "ordinary angle";
        auto S = [&](const char* s) { return std::string(s) + ", " + tag; };
        auto near = [&](const auto& m, const auto& r, double tol) { auto d = (m.template cast<L>() - r).eval(); double e = 0; bool ok = true; for (int i = 0; i < d.size(); ++i) { double x = (double)d(i); if (!std::isfinite(x)) ok = false; e = std::max(e, std::fabs(x)); } return ok && e <= tol; };
        // rotations
        Mat3 J;
        Quat<double> q = Quat<double>::exp(w), qj = Quat<double>::exp<JacobianSide::LEFT>(w, &J), qr = Quat<double>::exp<JacobianSide::RIGHT>(w, &J);
        SO3<double> R = SO3<double>::exp(w), Rj = SO3<double>::exp(w, &J);
        eval(5);
        VH_EXPECT(near(q.R().matrix(), E.transpose().eval(), 1e-14) && std::fabs(q.norm() - 1) < 1e-14, S("quaternion exp"), "R %s", vs(q.arr_).c_str());
        VH_EXPECT(near(qj.arr_, q.arr_.cast<L>().eval(), 1e-14) && near(qr.arr_, q.arr_.cast<L>().eval(), 1e-14), S("quaternion exp with Jacobian"), "%s", vs(qj.arr_).c_str());
        VH_EXPECT(std::fabs(q.w() - std::cos(th / 2)) < 1e-14, S("quaternion exp covers both signs"), "w %.9g", q.w());
        VH_EXPECT(near(R.matrix(), E, 1e-14), S("SO3 exp"), "-");
        VH_EXPECT(near(Rj.matrix(), E, 1e-14), S("SO3 exp with Jacobian"), "-");
        // logarithms of both quaternions of the rotation
        for (int sgn = 1; sgn >= -1; sgn -= 2)
        {
            Quat<double> p = (double)sgn * q;
            Mat3 J1, J2;
            Vec3 l = p.log(), l1 = p.log<JacobianSide::LEFT>(&J1), l2 = p.log<JacobianSide::RIGHT>(&J2);
            eval(3);
            for (auto& x : {l, l1, l2})
            {
                VH_EXPECT(near(ref::expm<3>(ref::sk(x.cast<L>())).eval(), E, 2e-14), S("quaternion log inverts exp"), "sign %d log %s", sgn, vs(x).c_str());
                VH_EXPECT(!(x.norm() > M_PI + 1e-9), S("quaternion log is the short way round"), "%.9g", x.norm());
            }
            if (th < M_PI - 1e-9) VH_EXPECT((l - w).norm() <= 1e-13 + 2e-15 * th && (l1 - w).norm() <= 1e-13 && (l2 - w).norm() <= 1e-13, S("quaternion log returns the argument of exp"), "log %s", vs(l).c_str());
        }
        {
            Vec3 l = R.log(), l1 = R.log(&J);
            eval(2);
            for (auto& x : {l, l1})
            {
                VH_EXPECT(near(ref::expm<3>(ref::sk(x.cast<L>())).eval(), E, 2e-6), S("SO3 log inverts exp"), "log %s", vs(x).c_str());
                VH_EXPECT(!(x.norm() > M_PI + 2e-4), S("SO3 log is the short way round"), "%.9g", x.norm());
                if (th < NEAR) VH_EXPECT((x - w).norm() <= 1e-6 * (th > 3 ? 1 : 1e-6) + (th < 3.05 ? 1e-15 : 1e-6), S("SO3 log returns the argument of exp"), "log %s off %.3g", vs(x).c_str(), (x - w).norm());
            }
        }
        // poses
        for (auto& v : V)
        {
            E6 wv; wv << w, v;
            double sc = v.norm();
            ref::V6 x = wv.cast<L>();
            ref::M4 T = ref::expm<4>(ref::up(x));
            ref::V3 t = T.topRightCorner<3, 1>();
            E6 dummy; Mat6 J6;
            DQuat<double> D = DQuat<double>::exp(wv), Dl = DQuat<double>::exp<JacobianSide::LEFT>(wv, &J6), Dr = DQuat<double>::exp<JacobianSide::RIGHT>(wv, &J6);
            SE3<double> X = SE3<double>::exp(wv), Xj = SE3<double>::exp(wv, &J6);
            eval(5);
            for (auto* d : {&D, &Dl, &Dr})
                VH_EXPECT(near(d->rotation().R().matrix(), E.transpose().eval(), 1e-14) && near(d->translation(), t, 1e-18 + sc * 2e-12) && std::fabs(d->r_.arr_.dot(d->d_.arr_)) <= 1e-13 * (sc + 1e-9), S("DQuat exp"), "v %s", vs(v).c_str());
            for (auto* d : {&X, &Xj}) VH_EXPECT(near(d->matrix().topLeftCorner<3, 3>().eval(), E, 1e-14) && near(d->translation(), t, sc * 2e-12), S("SE3 exp"), "v %s", vs(v).c_str());
            for (int sgn = 1; sgn >= -1; sgn -= 2)
            {
                DQuat<double> P; P.arr_ = sgn * D.arr_;
                E6 l = P.log(), l1 = P.log<JacobianSide::LEFT>(&J6), l2 = P.log<JacobianSide::RIGHT>(&J6);
                eval(3);
                for (auto& y : {l, l1, l2})
                {
                    ref::M4 Y = ref::expm<4>(ref::up(y.cast<L>()));
                    const double fac = 1;
                    VH_EXPECT(near(Y.topLeftCorner<3, 3>().eval(), E, 2e-14) && near(Y.topRightCorner<3, 1>().eval(), t, 1e-15 + sc * 1e-11 * fac), S("DQuat log inverts exp"), "sign %d v %s log %s", sgn, vs(v).c_str(), vs(y).c_str());
                    if (th < M_PI - 1e-6) VH_EXPECT((y - wv).head<3>().norm() < 1e-13 && (y - wv).tail<3>().norm() <= 1e-15 + sc * 1e-11, S("DQuat log returns the argument of exp"), "v %s log %s", vs(v).c_str(), vs(y).c_str());
                }
            }
            E6 l = X.log(), l1 = X.log(&J6);
            eval(2);
            for (auto& y : {l, l1})
            {
                ref::M4 Y = ref::expm<4>(ref::up(y.cast<L>()));
                VH_EXPECT(near(Y.topLeftCorner<3, 3>().eval(), E, 2e-6) && near(Y.topRightCorner<3, 1>().eval(), t, 1e-15 + sc * 5e-6), S("SE3 log inverts exp"), "v %s log %s", vs(v).c_str(), vs(y).c_str());
                if (th < NEAR) VH_EXPECT((y - wv).tail<3>().norm() <= 1e-15 + sc * (th < 3.05 ? 1e-11 : 5e-6), S("SE3 log returns the argument of exp"), "v %s log %s", vs(v).c_str(), vs(y).c_str());
            }
        }
    }
    // rotation matrices that are off by a rounding error: the logarithm stays finite and right
    if (first())
        for (auto& a : AX) for (double th : {0., 1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 1.0, 3.0, M_PI - 1e-5, M_PI - 1e-9, M_PI})
        {
            Mat3 m0 = SO3<double>::exp(th * a).matrix();
            for (int i = 0; i < 9; ++i) for (int u = -2; u <= 2; ++u)
            {
                Mat3 m = m0;
                m(i) += u * 2.3e-16;
                ctx("rotation by %g about %s, entry %d off by %d ulp", th, vs(a).c_str(), i, u);
                SO3<double> R(m);
                Mat3 J; Mat6 J6;
                Vec3 l = R.log(), l1 = R.log(&J);
                eval(2);
                Mat3 e1 = SO3<double>::exp(l).matrix() - m0, e2 = SO3<double>::exp(l1).matrix() - m0;
                VH_EXPECT(e1.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-5 && e2.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-5 && l.allFinite() && l1.allFinite(), std::string("SO3 log of a rounded rotation"), "log %s", vs(l).c_str());
                VH_EXPECT(J.allFinite(), std::string("Jacobian of the SO3 log of a rounded rotation is finite"), "-");
                SE3<double> X(R, Vec3(1, 2, 3));
                E6 y = X.log(), y1 = X.log(&J6);
                VH_EXPECT(y.allFinite() && y1.allFinite() && J6.allFinite(), std::string("SE3 log of a rounded rotation is finite"), "-");
                // ... and its quaternion is that rotation
                Quat<double> q = Quat<double>::from_R(m);
                VH_EXPECT((q.R().matrix() - m).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-14, std::string("quaternion of a rounded rotation"), "%s", vs(q.arr_).c_str());
            }
        }
    finish();
}
