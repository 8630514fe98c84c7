// M03: the Jacobians of exp and log, the adjoints and the parameter Jacobians are the derivatives they stand for, at every element.
#include "vh.h"
#include "lie.h"
#include "common/math/dquat.h"
#include "common/math/se3.h"
using namespace mc;
using namespace mc::math;
using namespace vh;
using ref::L;
typedef Eigen::Matrix<double, 6, 1> E6;
static std::string vs(const Eigen::VectorXd& v) { std::string s = "("; for (int i = 0; i < v.size(); ++i) s += str("%s%.9g", i ? "," : "", v(i)); return s + ")"; }
template <class A, class B> static double err(const A& m, const B& r) { double e = 0; for (int i = 0; i < r.size(); ++i) { double x = (double)((L)m(i) - r(i)); if (!std::isfinite(x)) return 1e300; e = std::max(e, std::fabs(x)); } return e; }
int main()
{
    init();
    std::vector<double> TH = {0, 1e-160, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 3.9e-6, 4.1e-6, 7.9e-6, 8.1e-6, 1e-5, 9.9e-5, 1.01e-4, 1.99e-4, 2.01e-4, 1e-3, 1.99e-3, 2.01e-3, 1e-2, 0.1, 1, M_PI / 2, 2, 2 * M_PI / 3, 2.5, 3, 3.1};
    for (double d : {1e-2, 1e-3, 2e-4, 1.1e-4, 9e-5, 1e-5, 1e-6, 1e-8, 1e-10, 1e-13, 0.0}) TH.push_back(M_PI - d);
    for (double d : {M_PI + 1e-6, M_PI + 1e-3, 4., 5., 6.}) TH.push_back(d);
    if (thorough()) for (int i = 1; i < 400; ++i) TH.push_back(i * 6. / 400);
    std::vector<Vec3> AX;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) AX.push_back(Vec3(x, y, z).normalized());
    for (Vec3 v : {Vec3(-1, 2, -3), Vec3(3, -2, 1), Vec3(1, -3, 2), Vec3(1, 1e-5, -1e-5), Vec3(1e-3, 2e-3, 1)}) AX.push_back(v.normalized());
    std::vector<Vec3> V = {Vec3(0, 0, 0), Vec3(0.3, -2, 5), Vec3(-100, 30, 2000)};
    uint64_t n = 0;
    for (double th : TH) for (auto& a : AX)
    {
        if (!mine(n++)) continue;
        Vec3 w = th * a;
        ctx("angle %.17g about %s", th, vs(a).c_str());
        std::string tag = th < 1e-2 ? "small angle" : std::fabs(th - M_PI) < 1e-2 ? "near pi" : th > M_PI ? "beyond pi" : "ordinary angle";
        auto S = [&](const char* s) { return std::string(s) + ", " + tag; };
        ref::M3 Jl = ref::phi<3>(ref::sk(w.cast<L>())), Jr = Jl.transpose(), E = ref::expm<3>(ref::sk(w.cast<L>()));
        nontrivial(hbytes(w.data(), 24)); outcome(hbytes(&th, 8));
        Mat3 J, K;
        Quat<double> q = Quat<double>::exp<JacobianSide::LEFT>(w, &J); Quat<double>::exp<JacobianSide::RIGHT>(w, &K);
        VH_EXPECT(err(J, Jl) < 1e-9, S("left Jacobian of quaternion exp"), "%.3g", err(J, Jl));
        VH_EXPECT(err(K, Jr) < 1e-9, S("right Jacobian of quaternion exp"), "%.3g", err(K, Jr));
        auto R = SO3<double>::exp(w, &J);
        VH_EXPECT(err(J, Jl) < 1e-11, S("Jacobian of SO3 exp"), "%.3g", err(J, Jl));
        eval(3);
        VH_EXPECT(err(q.Ad(), E) < 1e-14, S("quaternion adjoint"), "-");
        VH_EXPECT(err(R.Ad(), E) < 1e-14, S("SO3 adjoint"), "-");
        // logs of what exp gave: Jacobian at the logarithm they return
        for (int sgn = 1; sgn >= -1; sgn -= 2)
        {
            Quat<double> p = (double)sgn * q;
            Vec3 l = p.log<JacobianSide::LEFT>(&J), l2 = p.log<JacobianSide::RIGHT>(&K);
            if (l.norm() > 6.1 || l2.norm() > 6.1) continue;   // the Jacobian of the log is singular at a full turn
            ref::M3 Il = ref::phi<3>(ref::sk(l.cast<L>())).inverse(), Ir = ref::phi<3>(ref::sk(l2.cast<L>())).transpose().inverse();
            VH_EXPECT(err(J, Il) < 1e-8, S("left Jacobian of quaternion log"), "sign %d off %.3g", sgn, err(J, Il));
            VH_EXPECT(err(K, Ir) < 1e-8, S("right Jacobian of quaternion log"), "sign %d off %.3g", sgn, err(K, Ir));
            eval(2);
        }
        {
            Vec3 l = R.log(&J);
            ref::M3 I = ref::phi<3>(ref::sk(l.cast<L>())).inverse();
            VH_EXPECT(err(J, I) < 1e-5, S("Jacobian of SO3 log"), "off %.3g", err(J, I));
            eval();
        }
        // tangent <-> parameters: d(q exp(x))/dx and its left inverse
        {
            Eigen::Matrix<double, 4, 3> P = q.dParamDGen(); Eigen::Matrix<double, 3, 4> G = q.dGenDParam();
            for (int i = 0; i < 3; ++i)
            {
                Quat<double> u(0, i == 0, i == 1, i == 2);
                Quat<double> d = 0.5 * (q * u);
                VH_EXPECT((P.col(i) - d.arr_).norm() < 1e-15, S("quaternion parameters by generators"), "column %d", i);
            }
            VH_EXPECT((G * P - Mat3::Identity()).norm() < 1e-14, S("generators by quaternion parameters"), "-");
            VH_EXPECT((G * q.arr_).norm() < 1e-14, S("generators by quaternion parameters ignore the norm"), "-");
            eval(2);
        }
        for (auto& v : V)
        {
            E6 wv; wv << w, v;
            double sc = v.norm() + 1;
            ref::V6 x = wv.cast<L>();
            ref::M6 Jl6 = ref::phi<6>(ref::ad(x)), Jr6 = ref::phi<6>(ref::ad(-x)), A6 = ref::expm<6>(ref::ad(x));
            Mat6 J6, K6;
            auto D = DQuat<double>::exp<JacobianSide::LEFT>(wv, &J6); DQuat<double>::exp<JacobianSide::RIGHT>(wv, &K6);
            VH_EXPECT(err(J6, Jl6) < 1e-8 * sc, S("left Jacobian of DQuat exp"), "v %s off %.3g", vs(v).c_str(), err(J6, Jl6));
            VH_EXPECT(err(K6, Jr6) < 1e-8 * sc, S("right Jacobian of DQuat exp"), "v %s off %.3g", vs(v).c_str(), err(K6, Jr6));
            auto X = SE3<double>::exp(wv, &J6);
            VH_EXPECT(err(J6, Jl6) < 1e-8 * sc, S("Jacobian of SE3 exp"), "v %s off %.3g", vs(v).c_str(), err(J6, Jl6));
            VH_EXPECT(err(D.Ad(), A6) < 1e-11 * sc, S("DQuat adjoint"), "v %s", vs(v).c_str());
            VH_EXPECT(err(X.Ad(), A6) < 1e-11 * sc, S("SE3 adjoint"), "v %s", vs(v).c_str());
            eval(5);
            for (int sgn = 1; sgn >= -1; sgn -= 2)
            {
                DQuat<double> P; P.arr_ = sgn * D.arr_;
                E6 l = P.log<JacobianSide::LEFT>(&J6), l2 = P.log<JacobianSide::RIGHT>(&K6);
                if (l.head<3>().norm() > 6.1 || l2.head<3>().norm() > 6.1) continue;
                ref::M6 Il = ref::phi<6>(ref::ad(l.cast<L>())).inverse(), Ir = ref::phi<6>(ref::ad(-l2.cast<L>())).inverse();
                double m = 1 + (double)Il.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
                VH_EXPECT(err(J6, Il) < 1e-6 * m, S("left Jacobian of DQuat log"), "sign %d v %s off %.3g of %.3g", sgn, vs(v).c_str(), err(J6, Il), m);
                VH_EXPECT(err(K6, Ir) < 1e-6 * m, S("right Jacobian of DQuat log"), "sign %d v %s off %.3g of %.3g", sgn, vs(v).c_str(), err(K6, Ir), m);
                eval(2);
            }
            E6 l = X.log(&J6);
            ref::M6 I = ref::phi<6>(ref::ad(l.cast<L>())).inverse();
            double m = 1 + (double)I.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
            VH_EXPECT(err(J6, I) < 1e-5 * m, S("Jacobian of SE3 log"), "v %s off %.3g of %.3g", vs(v).c_str(), err(J6, I), m);
            eval();
            Eigen::Matrix<double, 8, 6> P = D.dParamDGen(); Eigen::Matrix<double, 6, 8> G = D.dGenDParam();
            for (int i = 0; i < 6; ++i)
            {
                DQuat<double> u; u.arr_.setZero(); u.arr_(i < 3 ? 1 + i : 2 + i) = 0.5;
                DQuat<double> d = D * u;
                VH_EXPECT((P.col(i) - d.arr_).norm() < 1e-14 * sc, S("DQuat parameters by generators"), "column %d", i);
            }
            Mat6 GP = G * P;
            VH_EXPECT((GP - Mat6::Identity()).norm() < 1e-13 * sc * sc, S("generators by DQuat parameters"), "v %s off %.3g", vs(v).c_str(), (GP - Mat6::Identity()).norm());
        }
    }
    finish();
}
