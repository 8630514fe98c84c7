// F02: the carrier-phase-difference factor: predicted change of phase from the geometry, switches, derivatives, refusals.
#include "vh.h"
#include <csetjmp>
#include "models/relative_carrier_phase_model.h"
#include "utils/wgs84.h"
#include "fakesat.h"
#include "rots.h"
using namespace mc;
using namespace vh;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;

static bool g_catch = false;
static jmp_buf g_died;
extern "C" void exit(int rc)
{
    if (g_catch) { g_catch = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}

struct P { DQ n1, n2, rn; Vec2 c1, c2; double s1, s2; Vec3 lev; };
template <class S> struct Ref { Pose<S> e, r, n[2]; V3<S> lev; S clk[2], drift[2], sw[2]; };
template <class S> static Ref<S> refOf(const P& p, const DQ& e)
{
    Ref<S> r;
    r.e = refPose<S>(e); r.r = refPose<S>(p.rn); r.n[0] = refPose<S>(p.n1); r.n[1] = refPose<S>(p.n2);
    r.lev = rv3<S>(p.lev);
    r.clk[0] = S((ld)p.c1(0)); r.clk[1] = S((ld)p.c2(0));
    r.drift[0] = S((ld)p.c1(1)); r.drift[1] = S((ld)p.c2(1));
    r.sw[0] = S((ld)p.s1); r.sw[1] = S((ld)p.s2);
    return r;
}
static Ref<Du> moved(Ref<Du> r, int k)
{
    const Du e(0, 1);
    if (k < 12) r.n[k / 6] = r.n[k / 6].moved(k % 6, e);
    else if (k < 14) r.clk[k - 12] = r.clk[k - 12] + e;
    else if (k < 16) r.drift[k - 14] = r.drift[k - 14] + e;
    else if (k < 18) r.sw[k - 16] = r.sw[k - 16] + e;
    else if (k < 24) r.r = r.r.moved(k - 18, e);
    else r.lev[k - 24] = r.lev[k - 24] + e;
    return r;
}
static const char* blockOf(int k) { return k < 6 ? "first pose" : k < 12 ? "second pose" : k < 14 ? "clocks" : k < 16 ? "clock drifts" : k < 18 ? "switches" : k < 24 ? "origin" : "lever arm"; }

// change of the range in metres between the two observations
template <class S> static S change(const Ref<S>& r, const FakeSat::Hop* hop)
{
    S out[2];
    const ld C = C_LIGHT;
    for (int i = 0; i < 2; ++i)
    {
        const V3<S> p = r.e.R * (r.r.R * (r.n[i].R * r.lev + r.n[i].t) + r.r.t) + r.e.t;
        const V3<S> s(S(hop[i].p[0]), S(hop[i].p[1]), S(hop[i].p[2]));
        const S sag = S((ld)OMEGA_EARTH / C) * (s[0] * p[1] - s[1] * p[0]);
        out[i] = (s - p).norm() + sag + S(C) * (r.clk[i] * S(1e-9L) - S(hop[i].c[0]));
    }
    return out[1] - out[0];
}

static void one(const models::RelativeCarrierPhase& f, double dphi, double lambda, double Xi, const FakeSat::Hop* hop, const DQ& Te, const P& p, const std::string& where)
{
    ctxs(where);
    const double* prm[] = {p.n1.data(), p.n2.data(), p.c1.data(), p.c2.data(), &p.s1, &p.s2, p.rn.data(), p.lev.data()};
    double res = NAN;
    double j[8][8];
    double* J[8];
    for (int i = 0; i < 8; ++i) { J[i] = j[i]; for (double& x : j[i]) x = NAN; }
    f.Evaluate(prm, &res, J);
    double alone = NAN;
    f.Evaluate(prm, &alone, nullptr);
    VH_EXPECT(alone == res, "residual-without-jacobians", "%s: %.17g with, %.17g without", where.c_str(), res, alone);
    eval(2);
    const auto r = refOf<ld>(p, Te);
    const ld dm = change(r, hop), gain = (ld)Xi * p.s1 * p.s2;
    const ld right = gain * (dphi - dm / lambda), times = gain * (dphi - dm * lambda);
    const double tol = (double)(3e-3L * fabsl(gain) * std::max(lambda, 1 / lambda) + 1e-9L);
    // which scale the factor uses, also when the switches hide it
    ld scale = 1 / (ld)lambda;
    {
        const double on = 1;
        const double* full[] = {p.n1.data(), p.n2.data(), p.c1.data(), p.c2.data(), &on, &on, p.rn.data(), p.lev.data()};
        double r1 = NAN;
        f.Evaluate(full, &r1, nullptr);
        const double t1 = (double)(3e-3L * Xi * std::max(lambda, 1 / lambda) + 1e-9L);
        if (!(std::fabs((double)(r1 - Xi * (dphi - dm / lambda))) < t1) && std::fabs((double)(r1 - Xi * (dphi - dm * lambda))) < t1)
        {
            violation("phase-in-cycles-times-wavelength", str("%s, switches on: residual %.9g; metres divided by the wavelength give %.9Lg, multiplied by it %.9Lg", where.c_str(), r1, Xi * (dphi - dm / lambda), Xi * (dphi - dm * lambda)));
            scale = lambda;
        }
    }
    if (!vh::expect(std::fabs((double)(res - (scale == (ld)lambda ? times : right))) < tol, "residual", str("%s: residual %.9g, geometry gives %.9Lg", where.c_str(), res, right))) return;
    outcome(std::llround(res));
    const auto rd = refOf<Du>(p, Te);
    for (int k = 0; k < 27; ++k)
    {
        double got;
        if (k < 12 || (k >= 18 && k < 24))
        {
            const DQ& q = k < 6 ? p.n1 : k < 12 ? p.n2 : p.rn;
            Vec6 d = Vec6::Zero(); d(k % 6) = 1e-5;
            const Vec8 t = (Vec8((q * DQ::exp(d)).arr_) - Vec8((q * DQ::exp(-d)).arr_)) / 2e-5;
            got = Eigen::Map<const Vec8>(j[k < 6 ? 0 : k < 12 ? 1 : 6]).dot(t);
        }
        else got = k < 14 ? j[2 + k - 12][0] : k < 16 ? j[2 + k - 14][1] : k < 18 ? j[4 + k - 16][0] : j[7][k - 24];
        ld want;
        double slack = 1e-6 * (double)(gain * scale);
        const Du c = change(moved(rd, k), hop);
        if (k == 16 || k == 17)
        {
            want = (ld)Xi * (k == 16 ? p.s2 : p.s1) * ((ld)dphi - scale * dm);
            slack = 3e-3 * Xi * std::max(lambda, 1 / lambda) + 1e-9;
        }
        else
        {
            want = -gain * scale * c.d;
            // the derivative of the Earth-rotation term, six millionths of the range's, is left out
            slack = (double)(2e-5L * gain * scale * (1 + fabsl(c.d) + p.lev.norm() + (k >= 18 && k < 21 ? 2 * (p.n1.translation().norm() + p.n2.translation().norm()) : 0)) + 1e-9L);
            if (k == 12 || k == 13) slack = 1e-7 * (double)(gain * scale);
            if (k == 14 || k == 15) slack = 0;
        }
        VH_EXPECT(std::fabs(got - (double)want) <= slack, "jacobian", "%s: %s (%d): %.9g, derivative %.9Lg", where.c_str(), blockOf(k), k, got, want);
        transition();
    }
}

int main()
{
    vh::init();
    if (!freopen("/dev/null", "w", stdout)) return 2;
    const auto R = rots(thorough() ? 12 : 3, thorough());
    const std::vector<Vec3> recs = {{-1798810.2, -4532232.5, 4099784.7}, {6378137.0, 0, 100}, {0, -6378200.0, -50}, {-3.9e6, 3.3e6, 3.8e6}, {100, 200, 6356800}, {4.5e6, 4.5e5, -4.5e6}};
    const UTCTime T(1561988124, 550000000);
    std::vector<FakeSat> sats;
    for (int i = 0; i < 6; ++i) sats.emplace_back(i % 3 == 0 ? GnssID::GPS : i % 3 == 1 ? GnssID::Galileo : GnssID::Glonass, i + 1, 0.8L * i, 0.95L, 0.7L * i * i, UTCTime(1561988000, 1000), 1e-5L * (i - 3), 1e-11L * (5 - i), i == 4 ? 1.0 : 0.19 + 0.01 * i);
    for (size_t i = 0; i < sats.size(); ++i) sats[i].dlambda = i == 4 ? 0 : 0.013;   // of one metre on every frequency: there the finding below hides nothing
    const double gaps[] = {0.2, 1.0, 30.0, -0.2};
    uint64_t idx = 0;
    for (size_t c = 0; c < recs.size(); ++c)
        for (size_t s = 0; s < sats.size(); ++s)
            for (int g = 0; g < 4; ++g)
                for (double Xi : {1.0, 25.0})
                {
                    if (!mine(idx++)) continue;
                    const DQ Te = utils::WGS84::dq_ecef2ned(recs[c]);
                    const double lam = sats[s].carrierWavelength((int)(c + s + g) % 4);
                    meas::GnssObservation o[2];
                    FakeSat::Hop hop[2];
                    const ld rec[3] = {recs[c](0), recs[c](1), recs[c](2)};
                    for (int i = 0; i < 2; ++i)
                    {
                        o[i].t = i ? T + gaps[g] : T; o[i].gnss_id = sats[s].gnssId(); o[i].sat_num = sats[s].sat_num(); o[i].freq = (c + s + g) % 4; o[i].doppler = 0;
                        hop[i] = sats[s].hop(sats[s].since(o[i].t), rec);
                        o[i].pseudorange = (double)hop[i].range;
                        o[i].carrier_phase = (double)(hop[i].range / lam) + 4711 + 0.25 * i;
                    }
                    ctx("receiver %zu satellite %zu gap %g", c, s, gaps[g]);
                    const models::RelativeCarrierPhase f(o[0], o[1], sats[s], recs[c], Te, Xi);
                    const double dphi = o[1].carrier_phase - o[0].carrier_phase;
                    for (size_t a = 0; a < R.size(); ++a)
                        for (int k = 0; k < 3 * 3 * 2 * 3 * 2; ++k)
                        {
                            const int b = k % 3, v = k / 3 % 3, l = k / 9 % 2, w = k / 18 % 3, og = k / 54;
                            P p;
                            p.n1 = DQ(R[a], b == 0 ? Vec3(0, 0, 0) : b == 1 ? Vec3(25, -40, 3) : Vec3(-300, 120, -15));
                            p.n2 = v == 0 ? p.n1 : DQ(R[(a + v) % R.size()], v == 1 ? Vec3(5026, -3038, -202) : Vec3(-310, 124, -14));
                            p.lev = l ? Vec3(0.3, -0.7, 1.1) : Vec3(0, 0, 0);
                            p.s1 = w == 0 ? 1.0 : w == 1 ? 0.35 : 0.0; p.s2 = w == 0 ? 1.0 : w == 1 ? 0.8 : 0.5;
                            p.rn = og ? DQ(R[(a + 2) % R.size()], Vec3(10, 20, -5)) : DQ();
                            p.c1 = Vec2(250.5 * (b + 1), -33.25); p.c2 = Vec2(250.5 * (b + 1) - 30 * v, -31.0);
                            one(f, dphi, lam, Xi, hop, Te, p, str("carrier phase: receiver %zu, satellite %zu, gap %g s, weight %g, attitude %zu, first position %d, second %d, lever %d, switches %d, origin %d", c, s, gaps[g], Xi, a, b, v, l, w, og));
                            const uint64_t h = mix(mix(mix(c * 8 + s, g * 64 + a), k), Xi);
                            state(h); trace();
                            if (a > 0 && b && v && l && w < 2) nontrivial(h);
                        }
                }
    // observations that do not belong together, or not to the satellite, are refused
    if (first())
        for (int m = 0; m < 64; ++m)
        {
            struct Bare : FakeSat { using FakeSat::FakeSat; int n = 1; int almanacSize() const override { return n; } } sat(GnssID::GPS, 7, 0, 0.9L, 0, T, 0, 0, 0.19);
            meas::GnssObservation a, b;
            for (auto* o : {&a, &b}) { o->t = T; o->gnss_id = GnssID::GPS; o->sat_num = 7; o->freq = 0; o->pseudorange = 2.2e7; o->carrier_phase = 0; o->doppler = 0; }
            b.t += 0.2;
            if (m & 1) sat.n = 0;
            if (m & 2) b.gnss_id = GnssID::Galileo;
            if (m & 4) b.sat_num = 8;
            if (m & 8) b.freq = 1;
            if (m & 16) { a.gnss_id = GnssID::Glonass; b.gnss_id = m & 2 ? b.gnss_id : a.gnss_id; }
            if (m & 32) { a.sat_num = 9; b.sat_num = m & 4 ? b.sat_num : a.sat_num; }
            ctx("refusals %d", m);
            bool died = false;
            g_catch = true;
            if (setjmp(g_died)) died = true;
            else { const DQ Te = utils::WGS84::dq_ecef2ned(recs[0]); models::RelativeCarrierPhase f(a, b, sat, recs[0], Te, 1.0); g_catch = false; (void)f; }
            VH_EXPECT(died == (m != 0), "refusal", "no ephemeris %d, systems differ %d, satellites differ %d, frequencies differ %d, other system %d, other satellite %d: %s", m & 1, (m >> 1) & 1, (m >> 2) & 1, (m >> 3) & 1, (m >> 4) & 1, m >> 5, died ? "refused" : "accepted");
            eval(); state(mix(4711, m));
        }
    sample("receivers x satellites x gaps x weights x attitudes x positions x lever arms x switches x origins; every combination of mismatches");
    return vh::finish();
}
