// F03: the factor that holds a pose near an anchor and the one that ties clocks and switches of neighbouring nodes.
#include "vh.h"
#include "models/pose_error_model.h"
#include "models/gnss_dynamics_model.h"
#include "dual.h"
#include "rots.h"
#include "lie.h"
using namespace mc;
using namespace vh;
using DQ = math::DQuat<double>;

static ref::M4 homog(const DQ& q)   // own frame to parent
{
    const auto p = refPose<ld>(q);
    ref::M4 m = ref::M4::Identity();
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = p.R.m[i][j]; m(i, 3) = p.t[i]; }
    return m;
}
static void pose(const DQ& anchor, const Vec6& xi, const Vec6& Xi, const std::string& where)
{
    ctxs(where);
    DQ x = anchor * DQ::exp(xi);
    for (int sgn = 0; sgn < 2; ++sgn)
    {
        if (sgn) for (int i = 0; i < 8; ++i) x.data()[i] = -x.data()[i];   // the same pose
        models::PoseError f(anchor, Xi);
        Vec6 r; r.setConstant(NAN);
        Eigen::Matrix<double, 6, 8, Eigen::RowMajor> J; J.setConstant(NAN);
        const double* prm[] = {x.data()};
        double* jac[] = {J.data()};
        double* none[] = {nullptr};
        f.Evaluate(prm, r.data(), jac);
        Vec6 r2, r3;
        f.Evaluate(prm, r2.data(), nullptr);
        f.Evaluate(prm, r3.data(), none);
        eval(3);
        VH_EXPECT((r - r2).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= 1e-12 * (1 + r.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()) && (r2 - r3).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() == 0, "residual-without-jacobian", "%s: the residual depends on whether derivatives are asked for", where.c_str());
        ref::V6 t;
        for (int i = 0; i < 6; ++i) t(i) = Xi(i) == 0 ? (ld)xi(i) : (ld)r(i) / Xi(i);
        for (int i = 0; i < 6; ++i) if (Xi(i) == 0) VH_EXPECT(r(i) == 0, "pose-residual", "%s: %d has no weight but residual %g", where.c_str(), i, r(i));
        // the twist that takes the anchor to the pose
        const ref::M4 got = ref::expm<4>(ref::up(t)), want = ref::inv(homog(anchor)) * homog(x);
        const ld e = (got - want).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>(), size = 1 + want.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() + homog(anchor).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>();
        VH_EXPECT(e <= 1e-11L * size, "pose-residual", "%s (sign %d): following the residual from the anchor ends %Lg away from the pose", where.c_str(), sgn, e);
        // the short way round
        const ld ang = sqrtl(t(0) * t(0) + t(1) * t(1) + t(2) * t(2));
        VH_EXPECT(ang <= ref::PI + 1e-9L, "pose-residual", "%s: rotation by %Lg", where.c_str(), ang);
        // derivative along twists of the pose: central differences of the residual itself
        if (ang < 3.1L)
            for (int k = 0; k < 6; ++k)
            {
                Vec6 d = Vec6::Zero();
                const double h = 3e-6;
                d(k) = h;
                DQ a = x * DQ::exp(d), b = x * DQ::exp(-d);
                Vec6 ra, rb;
                const double* pa[] = {a.data()};
                const double* pb[] = {b.data()};
                f.Evaluate(pa, ra.data(), nullptr);
                f.Evaluate(pb, rb.data(), nullptr);
                const Vec6 fd = (ra - rb) / (2 * h);
                const Vec6 an = J * ((Vec8(a.arr_) - Vec8(b.arr_)) / (2 * h));
                transition();
                const double tol = 2e-6 * (double)size * (1 + Xi.cwiseAbs().template maxCoeff<Eigen::PropagateNaN>()) * (1 + 1 / (3.1416 - (double)ang));
                VH_EXPECT((fd - an).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() <= tol, "pose-jacobian", "%s (sign %d): direction %d off by %g", where.c_str(), sgn, k, (fd - an).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>());
            }
        outcome(hbytes(r.data(), 48));
    }
}

int main()
{
    vh::init();
    const auto R = rots(thorough() ? 8 : 3, true);
    const std::vector<Vec3> pos = {{0, 0, 0}, {1, -2, 0.5}, {-1e4, 3e3, 250}};
    std::vector<Vec3> dirs;
    for (int m = 1; m < 27; ++m) { Vec3 d(m % 3 - 1, m / 3 % 3 - 1, m / 9 - 1); if (d.norm() > 0) dirs.push_back(d.normalized()); }
    const std::vector<double> angs = {0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 0.05, 0.8, 1.5, 2.4, 3.0, 3.14159};
    const std::vector<Vec3> moves = {{0, 0, 0}, {0.3, -0.1, 0.2}, {-40, 5, 8}};
    std::vector<Vec6> Ws(4, Vec6::Ones());
    Ws[1] << 1, 2, 3, 4, 5, 6; Ws[2] << 100, 0.5, 10, 0.01, 1, 3; Ws[3] << 1, 0, 2, 0, 3, 1;
    uint64_t idx = 0;
    for (size_t a = 0; a < R.size(); ++a)
        for (size_t p = 0; p < pos.size(); ++p)
            for (size_t d = 0; d < dirs.size(); ++d)
            {
                if (!mine(idx++)) continue;
                for (size_t g = 0; g < angs.size(); ++g)
                    for (size_t m = 0; m < moves.size(); ++m)
                    {
                        const size_t w = (d + g + m) % 4;
                        Vec6 xi;
                        xi.head<3>() = dirs[d] * angs[g]; xi.tail<3>() = moves[m];
                        pose(DQ(R[a], pos[p]), xi, Ws[w], str("pose: anchor attitude %zu, position %zu, direction %zu, angle %g, move %zu, weights %zu", a, p, d, angs[g], m, w));
                        const uint64_t h = mix(mix(a * 4 + p, d * 32 + g), m);
                        state(h); trace();
                        if (a && p && g && m) nontrivial(h);
                    }
            }
    // clocks and switches: bias, rate, switch of two nodes
    const std::vector<double> vals = {0, 1, -250.5, 3e5}, rates = {0, 0.5, -33.25}, sws = {0, 0.25, 1};
    const std::vector<int64_t> dts = {0, 1, 100000, 200000000, 999999999, 1000000000, 30000000001ll, -200000000, -1500000000};
    const int64_t starts[] = {0, 1, 500000000, 999999999};
    idx = 0;
    for (int64_t ns0 : starts)
        for (int64_t dt : dts)
            for (int w = 0; w < 3; ++w)
            {
                if (!mine(idx++)) continue;
                const UTCTime t0(1600000000, ns0);
                int64_t n = ns0 + dt, s = 1600000000;
                while (n < 0) { n += 1000000000; --s; }
                while (n >= 1000000000) { n -= 1000000000; ++s; }
                const UTCTime tf(s, n);
                const Vec3 Xi = w == 0 ? Vec3(1, 1, 1) : w == 1 ? Vec3(2, 30, 0.5) : Vec3(0, 7, 1e3);
                const models::GnssDynamics f(t0, tf, Xi);
                const ld T = dt * 1e-9L;
                for (double b1 : vals) for (double b2 : vals) for (double r1 : rates) for (double r2 : rates) for (double s1 : sws) for (double s2 : sws)
                {
                    ctx("clocks: interval %lld ns from %lld, weights %d, biases %g %g rates %g %g switches %g %g", (long long)dt, (long long)ns0, w, b1, b2, r1, r2, s1, s2);
                    const Vec2 c1(b1, r1), c2(b2, r2);
                    const double* prm[] = {c1.data(), c2.data(), &s1, &s2};
                    Vec3 r; r.setConstant(NAN);
                    double j[4][6]; double* J[4];
                    for (int i = 0; i < 4; ++i) { J[i] = j[i]; for (double& x : j[i]) x = NAN; }
                    f.Evaluate(prm, r.data(), J);
                    Vec3 q; f.Evaluate(prm, q.data(), nullptr);
                    eval(2); transition(); trace();
                    // a clock whose rate changes evenly
                    const ld want[3] = {b2 - (b1 + T * (r1 + (ld)r2) / 2), r2 - (ld)r1, s2 - (ld)s1};
                    for (int i = 0; i < 3; ++i)
                        VH_EXPECT(fabsl(r(i) - Xi(i) * want[i]) <= 1e-9L * (1 + fabsl(Xi(i) * want[i])) && q(i) == r(i), "clock-residual", "residual %d is %.12g, should be %.12Lg", i, r(i), Xi(i) * want[i]);
                    const ld J0[3][2] = {{-1, -T / 2}, {0, -1}, {0, 0}}, J1[3][2] = {{1, -T / 2}, {0, 1}, {0, 0}};
                    for (int i = 0; i < 3; ++i)
                    {
                        for (int k = 0; k < 2; ++k)
                            VH_EXPECT(fabsl(j[0][2 * i + k] - Xi(i) * J0[i][k]) <= 1e-9L * (1 + Xi(i)) && fabsl(j[1][2 * i + k] - Xi(i) * J1[i][k]) <= 1e-9L * (1 + Xi(i)), "clock-jacobian", "row %d column %d: %.12g and %.12g", i, k, j[0][2 * i + k], j[1][2 * i + k]);
                        VH_EXPECT(j[2][i] == (i == 2 ? -Xi(2) : 0.0) && j[3][i] == (i == 2 ? Xi(2) : 0.0), "clock-jacobian", "switches, row %d: %.12g and %.12g", i, j[2][i], j[3][i]);
                    }
                }
                state(mix(mix(999, ns0), dt * 4 + w));
            }
    sample("anchors x directions x angles (around all branches) x moves x weights; intervals x biases x rates x switches");
    return vh::finish();
}
