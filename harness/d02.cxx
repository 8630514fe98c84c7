// D02: the simulator's controllers: PID law, saturation and anti-windup; waypoints in order; the car obeys Newton and tracks its commands.
#include "vh.h"
#include "sim/dynamics/car.h"
#include "dual.h"
#include "rots.h"
using namespace mc;
using namespace vh;
using sim::controllers::PID;
using sim::dynamics::SimCar;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
static UTCTime at(int64_t ns) { UTCTime t; t.sec = 1600000000 + ns / 1000000000; t.nsec = ns % 1000000000; return t; }

// ---- PID: every history of measurements and set points
static const double X[5] = {-2, -0.3, 0, 0.3, 2}, DT[3] = {0.01, 0.1, 0};
struct Gains { double kp, ki, kd, max, tau; };
static void pid(int len)
{
    const double inf = std::numeric_limits<double>::max();
    const std::vector<Gains> G{{1, 0, 0, inf, 0.05}, {2, 0, 0, 0.5, 0.05}, {1, 0.5, 0, inf, 0.05}, {1, 0.5, 0, 1, 0.05}, {0.2, 3, 0, 1, 0.05}, {5, 3, 0, 1, 0.05}, {1, 0.5, 0.3, inf, 0.05}, {1, 0.5, 0.3, 1, 0.2}, {0, 2, 0, 0.25, 0.05}, {10, 0, 1, 3, 0.01}, {1, 20, 0, 1, 0.05}, {0.6, 8, 0, 0.5, 0.05}};
    for (size_t gi = 0; gi < G.size(); ++gi) for (int d = 0; d < 4; ++d) for (int integrate = 0; integrate < 2; ++integrate) for (int given = 0; given < 2; ++given)
    words(25, len, [&](const std::vector<int>& w) {
        const Gains& k = G[gi];
        PID::Options o; o.kp = k.kp; o.ki = k.ki; o.kd = k.kd; o.max = k.max; o.tau = k.tau;
        PID c(o);
        ld diff = 0, prev = 0, sum = 0;
        bool free = true;      // never saturated so far
        int pinned = 0;        // side of the saturation held while the error kept its sign
        trace();
        for (size_t i = 0; i < w.size(); ++i)
        {
            const double step = DT[d < 3 ? d : (i + 2) % 3]; const ld dt = step;
            const double x = X[w[i] % 5], xc = X[w[i] / 5];
            const std::string where = str("gains %zu, dt %g, integrate %d, derivative given %d, history %s (x %%5, set point /5 of {-2,-.3,0,.3,2}), step %zu", gi, step, integrate, given, wstr(w).c_str(), i);
            ctxs(where);
            const double slope = 0.7 * x - 0.2;
            const double was = c.integrator_;
            const double u = given ? c.run(step, x, xc, integrate, slope) : c.run(step, x, xc, integrate);
            transition();
            const ld e = (ld)xc - x;
            ld xdot = slope;
            if (!given)
            {
                if (step > 1e-4) diff = (2 * k.tau - dt) / (2 * k.tau + dt) * diff + 2 / (2 * k.tau + dt) * ((ld)x - prev), xdot = diff;
                else xdot = 0;
                prev = x;
            }
            if (integrate && k.ki > 0) sum += e * dt;
            const ld p = k.kp * e, dd = k.kd * xdot, want = p - dd + (integrate ? k.ki * sum : 0);
            VH_EXPECT(std::fabs(u) <= k.max, "output-within-limits", "%s: output %.9g, limit %g", where.c_str(), u, k.max);
            const bool memoryless = !(integrate && k.ki > 0);
            if (free || memoryless)
            {
                const ld lim = want > k.max ? (ld)k.max : want < -k.max ? -(ld)k.max : want;
                VH_EXPECT(fabsl(u - lim) <= 1e-12L * (1 + fabsl(lim)), "pid-law", "%s: output %.12g, law gives %.12Lg", where.c_str(), u, lim);
                if (fabsl(want) > k.max) free = false;
            }
            // neither does saturation drive the integral anywhere: it ends between nothing, where it was and where the error takes it
            if (!memoryless)
            {
                const double full = was + (double)(e * dt), is = c.integrator_, tol = 1e-12 * (1 + std::fabs(full) + std::fabs(was));
                VH_EXPECT(is >= std::min({0.0, was, full}) - tol && is <= std::max({0.0, was, full}) + tol, "integral-driven-by-saturation", "%s: the integral went from %g to %g, the error takes it to %g", where.c_str(), was, is, full);
                const ld raw = p - dd + (ld)k.ki * full;
                if (fabsl(raw) <= k.max * (1 - 1e-12L)) VH_EXPECT(std::fabs(is - full) <= tol && fabsl(u - raw) <= 1e-11L * (1 + fabsl(raw)), "pid-law", "%s: unsaturated, yet the integral went to %g rather than %g and the output is %g, not %Lg", where.c_str(), is, full, u, raw);
            }
            // no wind-up: once the error has turned round, nothing keeps the output where it was pinned
            if (k.kd == 0 && !memoryless)
            {
                if (pinned && e * pinned < 0) { VH_EXPECT(u * pinned < k.max, "anti-windup", "%s: the error has turned round but the output is still pinned at %g", where.c_str(), u); pinned = 0; }
                else if (e == 0 || e * pinned < 0) pinned = 0;
                if (std::fabs(u) == k.max && u * (double)e > 0) pinned = u > 0 ? 1 : -1;
            }
            eval();
            state(mix(mix(gi * 16 + d * 4 + integrate * 2 + given, hbytes(&c.integrator_, 8)), hbytes(&c.differentiator_, 8)));
            outcome(mix(gi, std::llround(u * 1e3)));
        }
        nontrivial(mix(gi, hstr(wstr(w))));
    });
}

// ---- waypoints: every history of positions relative to the waypoints
static void follow(int len)
{
    const std::vector<std::vector<Vec3>> W{{Vec3(10, 0, 0), Vec3(10, 10, 0), Vec3(-5, 3, 0)}, {Vec3(0, 0, 0), Vec3(0.3, 0, 0)}, {Vec3(7, -7, 0)}, {Vec3(4, 0, 3), Vec3(4, 0, 3.2), Vec3(-2, 1, -0.6)}};
    const double D[4] = {0, 0.45, 0.55, 6};
    for (size_t wp = 0; wp < W.size(); ++wp) for (int opt = 0; opt < 2; ++opt) words(16, len, [&](const std::vector<int>& w) {
        SimCar::WaypointFollower::Options o;
        o.waypoints = W[wp]; o.max_speed = opt ? 20 : 0.8; o.max_omega = opt ? 0.5 : 2;
        char mem[sizeof(SimCar::WaypointFollower)] __attribute__((aligned(16)));
        memset(mem, 0x11, sizeof mem);
        auto* f = new (mem) SimCar::WaypointFollower(o);
        size_t cur = 0;
        trace();
        for (size_t i = 0; i < w.size(); ++i)
        {
            // positions around the current or the following waypoint
            const Vec3 base = W[wp][(cur + w[i] / 8) % W[wp].size()];
            const double th = 0.4 + 1.9 * i + 2.4 * (w[i] / 4 % 2), yaw = 0.8 * i + 1.3 * w[i];
            const Vec3 pos = base + D[w[i] % 4] * (wp == 3 ? Vec3(std::cos(th) * 0.6, std::sin(th) * 0.6, w[i] / 8 ? 0.8 : -0.8) : Vec3(std::cos(th), std::sin(th), 0));
            const std::string where = str("waypoints %zu, options %d, history %s, step %zu", wp, opt, wstr(w).c_str(), i);
            ctxs(where);
            const Vec2 vw = f->follow(DQ(Q(std::cos(yaw / 2), 0, 0, std::sin(yaw / 2)), pos));
            transition();
            if ((W[wp][cur % W[wp].size()] - pos).norm() < 0.5) ++cur;
            VH_EXPECT(f->current_waypoint() == W[wp][cur % W[wp].size()], "waypoint-order", "%s: heads for (%g, %g), the next waypoint is (%g, %g)", where.c_str(), f->current_waypoint()(0), f->current_waypoint()(1), W[wp][cur % W[wp].size()](0), W[wp][cur % W[wp].size()](1));
            const Vec3 e = W[wp][cur % W[wp].size()] - pos;
            VH_EXPECT(vw(0) >= 0 && vw(0) <= std::max(1.0, o.max_speed) + 1e-12 && std::fabs(vw(1)) <= o.max_omega * (1 + 1e-12), "command-within-limits", "%s: speed %g, turn rate %g", where.c_str(), vw(0), vw(1));
            if (e.norm() > 1e-9)
            {
                const double side = std::cos(yaw) * e(1) - std::sin(yaw) * e(0);   // positive: the waypoint is on the left
                if (std::fabs(side) > 1e-9 * e.norm()) VH_EXPECT(vw(1) * side > 0, "turns-towards-waypoint", "%s: turn rate %g with the waypoint %s", where.c_str(), vw(1), side > 0 ? "left" : "right");
            }
            eval();
            state(mix(mix(wp * 2 + opt, cur), std::llround(vw(0) * 1e6) * 31 + std::llround(vw(1) * 1e6)));
            outcome(mix(std::llround(vw(0) * 1e3), std::llround(vw(1) * 1e3)));
        }
        f->~WaypointFollower();
    });
}

// every bearing of the waypoint against every heading
static void bearings()
{
    const int N = thorough() ? 360 : 96;
    for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int d = 0; d < 3; ++d)
    {
        if (!mine(a * N + b)) continue;
        SimCar::WaypointFollower::Options o;
        const double th = 2 * M_PI * a / N + 1e-3, yaw = 2 * M_PI * b / N, R = d == 0 ? 0.6 : d == 1 ? 10 : 3000;
        o.waypoints = {Vec3(R * std::cos(th), R * std::sin(th), 0)};
        SimCar::WaypointFollower f(o);
        const Vec2 vw = f.follow(DQ(Q(std::cos(yaw / 2), 0, 0, std::sin(yaw / 2)), Vec3(0, 0, 0)));
        const double off = std::sin(th - yaw);
        const std::string where = str("bearing %d/%d, heading %d/%d, distance %g", a, N, b, N, R);
        ctxs(where);
        eval();
        VH_EXPECT(vw(0) >= 0 && vw(0) <= o.max_speed + 1e-9 && std::fabs(vw(1)) <= o.max_omega + 1e-9, "command-within-limits", "%s: speed %g, turn rate %g", where.c_str(), vw(0), vw(1));
        VH_EXPECT(vw(1) * off > 0, "turns-towards-waypoint", "%s: turn rate %g", where.c_str(), vw(1));
        if (std::fabs(th - yaw) < 0.02) VH_EXPECT(vw(0) > 0.95 * o.max_speed, "full-speed-ahead", "%s: speed %g with the waypoint straight ahead", where.c_str(), vw(0));
        state(mix(mix(a, b), d));
    }
}

// ---- the car: Newton's laws for every pair of torques, and tracking of every command from every start
static void car()
{
    const double U[5] = {-1, -0.1, 0, 0.3, 2};
    uint64_t n = 0;
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int m = 0; m < 3; ++m) for (int g = 0; g < 3; ++g)
    {
        if (!mine(n++)) continue;
        SimCar::Options o;
        o.t0 = at(0); o.mass = m == 0 ? 1 : m == 1 ? 900 : 0.3; o.inertia_ = Vec3(1, 2, 3) * (g + 0.5); o.axle_width = 1.3 + 0.2 * g; o.wheel_radius = 0.1 + 0.15 * m;
        SimCar c(o);
        ctx("torques %g %g, mass %g, geometry %d", U[a], U[b], o.mass, g);
        const Vec6 v0 = (Vec6() << 0, 0, 0.2, 3, 0, 0).finished();
        c.x.dx = v0;
        const DQ x0 = c.x.x;
        Eigen::VectorXd u(2); u << U[a], U[b];
        const double dt = 0.02;
        c.step(at(20000000), u);
        transition(); eval();
        const ld F = ((ld)U[a] + U[b]) / o.wheel_radius, M = ((ld)U[b] - U[a]) / o.wheel_radius * o.axle_width / 2;
        ld want[6] = {0, 0, v0(2) + M / o.inertia_(2) * dt, v0(3) + F / o.mass * dt, 0, 0};
        for (int i = 0; i < 6; ++i) VH_EXPECT(fabsl(c.x.dx(i) - want[i]) <= 1e-12L * (1 + fabsl(want[i])), "newton", "torques %g %g, mass %g, geometry %d: rate %d is %.12g, the forces give %.12Lg", U[a], U[b], o.mass, g, i, c.x.dx(i), want[i]);
        const Vec6 moved = DQ(x0.inverse() * c.x.x).log();
        VH_EXPECT((moved - v0 * dt).norm() <= ((ld)c.x.d2x.norm()) * dt * dt + 1e-12, "motion", "torques %g %g, mass %g, geometry %d: the pose does not move with the rates", U[a], U[b], o.mass, g);
        VH_EXPECT(c.t() == at(20000000), "clock", "torques %g %g", U[a], U[b]);
        // where it is after a long time with constant rates: on its circle
        state(mix(mix(a, b), m * 3 + g));
        nontrivial(mix(mix(a, b), m * 3 + g));
    }
    const double V[4] = {0, 1, 8, 20}, O[4] = {-0.6, 0, 0.2, 1.5};
    for (int v = 0; v < 4; ++v) for (int w = 0; w < 4; ++w) for (int v0 = 0; v0 < 4; ++v0) for (int w0 = 0; w0 < 4; ++w0)
    {
        if (!mine(n++)) continue;
        SimCar::Options o;
        o.t0 = at(0);
        for (auto* p : {&o.heading_controller_gains, &o.velocity_controller_gains}) { p->kp = 10; p->kd = 1; }
        SimCar c(o);
        c.x.dx(3) = V[v0]; c.x.dx(2) = O[w0];
        for (int i = 0; i < 3000; ++i)
        {
            const UTCTime t = at((i + 1) * 1000000ll);
            c.step(t, c.controller(t, Vec2(V[v], O[w])));
            transition();
        }
        const std::string where = str("from %g m/s and %g rad/s to %g m/s and %g rad/s", V[v0], O[w0], V[v], O[w]);
        ctxs(where);
        VH_EXPECT(std::fabs(c.x.dx(3) - V[v]) < 0.02 * std::max(1.0, std::fabs(V[v] - V[v0])), "tracks-speed", "%s: %g m/s after 3 s", where.c_str(), c.x.dx(3));
        VH_EXPECT(std::fabs(c.x.dx(2) - O[w]) < 0.02 * std::max(1.0, std::fabs(O[w] - O[w0])), "tracks-turn-rate", "%s: %g rad/s after 3 s", where.c_str(), c.x.dx(2));
        eval(); trace();
        state(hbytes(c.x.dx.data(), 48));
    }
    // speed and turn are driven apart: the force depends on the speed commanded only, the moment on the turn rate only
    for (int v = 0; v < 4; ++v) for (int w = 0; w < 4; ++w) for (int v0 = 0; v0 < 4; ++v0) for (int w0 = 0; w0 < 4; ++w0) for (int g = 0; g < 4; ++g)
    {
        if (!mine(n++)) continue;
        SimCar::Options o;
        o.t0 = at(0); o.axle_width = 0.7 + 0.45 * g; o.wheel_radius = 0.1 + 0.12 * g; o.track = 2 - 0.3 * g;
        for (auto* p : {&o.heading_controller_gains, &o.velocity_controller_gains}) { p->kp = 1.5; p->kd = g % 2 ? 0.2 : 0; }
        const auto wrench = [&](double cv, double cw) {
            SimCar c(o);
            c.x.dx(3) = V[v0]; c.x.dx(2) = O[w0];
            typename DQ::TangentVector f; f.setZero();
            const Vec2 u = c.controller(at(10000000), Vec2(cv, cw));
            c.compute_wrench(c.x, Eigen::VectorXd(u), Out<typename DQ::TangentVector>(f));
            return Vec6(f);
        };
        const std::string where = str("at %g m/s and %g rad/s, commanded %g and %g, geometry %d", V[v0], O[w0], V[v], O[w], g);
        ctxs(where);
        const Vec6 f = wrench(V[v], O[w]), fv = wrench(V[v], O[(w + 1) % 4]), fw = wrench(V[(v + 1) % 4], O[w]);
        VH_EXPECT(std::fabs(f(3) - fv(3)) <= 1e-10 * (1 + std::fabs(f(3))), "turning-changes-force", "%s: forward force %g, with another turn rate %g", where.c_str(), f(3), fv(3));
        VH_EXPECT(std::fabs(f(2) - fw(2)) <= 1e-10 * (1 + std::fabs(f(2))), "speeding-changes-moment", "%s: moment %g, with another speed %g", where.c_str(), f(2), fw(2));
        VH_EXPECT((fw(3) - f(3)) * (V[(v + 1) % 4] - V[v]) > 0 && (fv(2) - f(2)) * (O[(w + 1) % 4] - O[w]) > 0, "commands-have-effect", "%s: a higher command does not give more", where.c_str());
        VH_EXPECT(f(0) == 0 && f(1) == 0 && f(4) == 0 && f(5) == 0, "force-along-the-car", "%s: forces across the car", where.c_str());
        eval();
        state(hbytes(f.data(), 48));
    }
    // constant rates: after every number of steps the car is where the circle says
    for (int v = 0; v < 4; ++v) for (int w = 0; w < 4; ++w)
    {
        if (!mine(n++)) continue;
        SimCar::Options o; o.t0 = at(0);
        SimCar c(o);
        c.x.dx(3) = V[v]; c.x.dx(2) = O[w];
        Eigen::VectorXd u = Eigen::VectorXd::Zero(2);
        for (int i = 1; i <= 2000; ++i)
        {
            c.step(at(i * 10000000ll), u);
            const ld t = i * 0.01L, th = O[w] * t, x = O[w] == 0 ? V[v] * t : V[v] * sinl(th) / O[w], y = O[w] == 0 ? 0 : V[v] * (1 - cosl(th)) / O[w];
            const Vec3 p = c.x.x.translation();
            VH_EXPECT(fabsl(p(0) - x) + fabsl(p(1) - y) + fabsl(p(2)) < 1e-9L * (1 + V[v] * t), "circle", "%g m/s, %g rad/s: after %d steps at (%g, %g), the circle is at (%Lg, %Lg)", V[v], O[w], i, p(0), p(1), x, y);
            transition();
        }
        trace();
    }
}

int main()
{
    init();
    pid(thorough() ? 4 : 3);
    follow(thorough() ? 5 : 4);
    bearings();
    car();
    return finish();
}
