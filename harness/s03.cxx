// S03: satellite position, velocity and clock follow the broadcast orbit models, and the satellite cache solves the light-time equation.
#include "vh.h"
#include <csetjmp>
#include "common/defs.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/satellite/satellite.h"
#include "common/satellite/satellite_cache.h"
#include "common/satellite/satellite_state.h"
#include "utils/wgs84.h"
using namespace mc;
using namespace mc::satellite;
using namespace vh;
typedef long double L;
static bool g_catch = false;
static jmp_buf g_died;
extern "C" void exit(int rc)
{
    if (g_catch) { g_catch = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}
struct V { L x, y, z; };
static const L PI_L = 3.14159265358979323846264338327950288L, OMG = 7.2921151467e-5L, C = 299792458.0L;
static L gm(const ephemeris::KeplerianEphemeris& e) { return e.gnssID == GnssID::Galileo ? 3.986004418e14L : 3.986005e14L; }

// the user algorithm of the interface documents (IS-GPS-200 table 20-IV, Galileo OS SIS ICD 5.1.1); Kepler's equation by bisection
static L kepler(L m, L e)
{
    L k = floorl(m / (2 * PI_L) + 0.5L) * 2 * PI_L;
    m -= k;
    L lo = m - e - 1e-6L, hi = m + e + 1e-6L;
    for (int i = 0; i < 75; ++i) { L c = (lo + hi) / 2; if (c - e * sinl(c) < m) lo = c; else hi = c; }
    return (lo + hi) / 2 + k;
}
static V kpos(const ephemeris::KeplerianEphemeris& e, L dt, L* ecc_anomaly = nullptr)
{
    L A = (L)e.sqrta * e.sqrta, n = sqrtl(gm(e) / (A * A * A)) + e.delta_n;
    L E = kepler(e.m0 + n * dt, e.ecc);
    if (ecc_anomaly) *ecc_anomaly = E;
    L nu = atan2l(sqrtl(1 - (L)e.ecc * e.ecc) * sinl(E), cosl(E) - e.ecc);
    L ph = nu + e.w;
    L u = ph + e.cus * sinl(2 * ph) + e.cuc * cosl(2 * ph);
    L r = A * (1 - e.ecc * cosl(E)) + e.crs * sinl(2 * ph) + e.crc * cosl(2 * ph);
    L i = e.i0 + e.idot * dt + e.cis * sinl(2 * ph) + e.cic * cosl(2 * ph);
    L om = e.omega0 + (e.omegadot - OMG) * dt - OMG * e.toes;
    L xp = r * cosl(u), yp = r * sinl(u);
    return {xp * cosl(om) - yp * cosl(i) * sinl(om), xp * sinl(om) + yp * cosl(i) * cosl(om), yp * sinl(i)};
}
static double dist(const V& a, const Vec3& b) { return (double)sqrtl((a.x - b.x()) * (a.x - b.x()) + (a.y - b.y()) * (a.y - b.y()) + (a.z - b.z()) * (a.z - b.z())); }
static L dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

static const double ECC[] = {0.0, 1e-10, 1e-4, 0.02, 0.3, 0.7};
static const double M0[] = {0.0, 1e-9, 0.3, M_PI / 2, 2.5, M_PI - 1e-9, M_PI, -M_PI, -3.0, -1.2, -1e-9, 3.1};
static const double DT[] = {0.0, 1e-9, 0.001, 1.0, -1.0, 63.5, 900.0, -900.0, 1800.25, 3600.0, -3600.0, 7199.0, -7199.0, 7200.0, -7200.0};
template <typename E> E make(uint8_t g, double ecc, double m0, int shape, int when)
{
    E e(9);
    e.gnssID = g; e.sat = 9;
    // reference times: middle of a week, the first and the last seconds of one
    int week = 2000, sow = when == 0 ? 216000 : when == 1 ? 0 : 604784;
    e.toe = UTCTime::fromGPS(week, sow * 1000);
    e.toc = e.toe + (when == 1 ? 960.0 : when == 2 ? -16.0 : 0.0);
    e.toes = sow; e.tocs = (sow + (when == 1 ? 960 : when == 2 ? -16 : 0)); e.week = week;
    e.sqrta = g == GnssID::Galileo ? 5440.6 : 5153.7;
    e.ecc = ecc; e.m0 = m0;
    e.delta_n = shape ? 4.6e-9 : 0;
    e.w = shape == 2 ? -2.9 : 0.7; e.i0 = shape == 2 ? 1.1 : 0.96; e.omega0 = shape == 1 ? 2.8 : -1.3;
    e.idot = shape ? 3.4e-10 : 0; e.omegadot = shape ? -8.5e-9 : 0;
    e.cus = shape ? 8e-6 : 0; e.cuc = shape == 1 ? 4.5e-6 : shape ? -3e-6 : 0;
    e.crs = shape ? 88.7 : 0; e.crc = shape == 2 ? 344.9 : shape ? -200.5 : 0;
    e.cis = shape ? -8.5e-8 : 0; e.cic = shape == 1 ? 6.5e-8 : shape ? 1.5e-7 : 0;
    e.af0 = shape ? 4.2e-4 : 0; e.af1 = shape ? -3.1e-11 : 0; e.af2 = shape == 2 ? 5e-17 : 0;
    return e;
}
template <typename E> void kepler_grid(uint8_t g, const char* nm)
{
    uint64_t n = 0;
    for (double ecc : ECC) for (double m0 : M0) for (int shape = 0; shape < 3; ++shape) for (int when = 0; when < 3; ++when)
    {
        if (!mine(n++)) continue;
        E e = make<E>(g, ecc, m0, shape, when);
        for (double dt : DT)
        {
            ctx("%s ecc %g m0 %g parameter set %d reference time set %d, %g s from toe", nm, ecc, m0, shape, when, dt);
            UTCTime t = e.toe + dt;
            L d = (L)(t.sec - e.toe.sec) + 1e-9L * (t.nsec - e.toe.nsec);
            if (fabsl(d) > 7200) continue;
            SatelliteState s;
            Error err = eph2Sat(t, e, make_out(s));
            eval();
            VH_EXPECT(err.ok(), "a state within two hours of the reference time is available", "-");
            L E_;
            V p = kpos(e, d, &E_);
            double dp = dist(p, s.pos);
            VH_EXPECT(dp < 1e-5, "Keplerian position", "off by %.9g m", dp);
            const L h = 0.01L;
            V a = kpos(e, d + h), b = kpos(e, d - h), v{(a.x - b.x) / (2 * h), (a.y - b.y) / (2 * h), (a.z - b.z) / (2 * h)};
            double dv = dist(v, s.vel);
            VH_EXPECT(dv < 1e-3, "Keplerian velocity is the derivative of the position", "off by %.9g m/s", dv);
            L A = (L)e.sqrta * e.sqrta, rel = 2 * sqrtl(gm(e) * A) / (C * C) * e.ecc;
            L cd = (L)(t.sec - e.toc.sec) + 1e-9L * (t.nsec - e.toc.nsec);
            L clk = e.af0 + e.af1 * cd + e.af2 * cd * cd - rel * sinl(E_);
            VH_EXPECT(fabsl(clk - s.clk(0)) < 1e-15L, "satellite clock offset", "off by %.6g s", (double)(clk - s.clk(0)));
            L rate = e.af1 + 2 * e.af2 * cd, slack = rel * 1.5e-4L / (1 - e.ecc) * 2 + 1e-19L;   // the relativistic rate may be in or out
            VH_EXPECT(fabsl(rate - s.clk(1)) <= slack, "satellite clock drift", "off by %.6g", (double)(rate - s.clk(1)));
            VH_EXPECT(s.t == t, "the state carries its time", "-");
            nontrivial(hbytes(s.pos.data(), 24, n)); outcome((uint64_t)(dp * 1e8));
            // a state object that held something else before gives the same answer
            SatelliteState s2; s2.pos = Vec3(1, 2, 3); s2.vel = Vec3(4, 5, 6); s2.clk = Vec2(7, 8); s2.t = e.toe + 100.0;
            eph2Sat(t, e, make_out(s2));
            VH_EXPECT(!memcmp(s2.pos.data(), s.pos.data(), 24) && !memcmp(s2.vel.data(), s.vel.data(), 24) && !memcmp(s2.clk.data(), s.clk.data(), 16),
                      "a satellite state does not depend on earlier ones", "-");
        }
    }
}
// an ephemeris is not used more than two hours away from its reference time, on either side
template <typename E> void stale(uint8_t g, const char* nm)
{
    for (int when = 0; when < 3; ++when)
        for (double far : {7199.999, 7200.0, 7200.001, 7201.0, 10000.0, 14400.0, 86400.0, 604800.0, 1e8})
            for (double sg : {1.0, -1.0})
            {
                E e = make<E>(g, 0.02, 0.3, 2, when);
                ctx("%s, reference time set %d, %.9g s from toe", nm, when, sg * far);
                SatelliteState s;
                bool refused = false;
                g_catch = true;
                if (setjmp(g_died)) refused = true;
                else { refused = !eph2Sat(e.toe + sg * far, e, make_out(s)).ok(); g_catch = false; }
                eval();
                VH_EXPECT(refused == (far > 7200.0), "an ephemeris is used within two hours of its reference time only", "%s", refused ? "refused" : "used");
            }
}
// GLONASS: the equations of motion of the interface document, integrated in one-second steps
struct G6 { L x[6]; };
static G6 gdot(const G6& s, const Vec3& acc)
{
    const L mu = 3.9860044e14L, J2 = 1.0826257e-3L, ae = 6378136.0L, w = 7.292115e-5L;
    L r = sqrtl(s.x[0] * s.x[0] + s.x[1] * s.x[1] + s.x[2] * s.x[2]);
    L k = 1.5L * J2 * mu * ae * ae / powl(r, 5), zz = 5 * s.x[2] * s.x[2] / (r * r);
    G6 d;
    d.x[0] = s.x[3]; d.x[1] = s.x[4]; d.x[2] = s.x[5];
    d.x[3] = -mu / (r * r * r) * s.x[0] - k * s.x[0] * (1 - zz) + w * w * s.x[0] + 2 * w * s.x[4] + acc.x();
    d.x[4] = -mu / (r * r * r) * s.x[1] - k * s.x[1] * (1 - zz) + w * w * s.x[1] - 2 * w * s.x[3] + acc.y();
    d.x[5] = -mu / (r * r * r) * s.x[2] - k * s.x[2] * (3 - zz) + acc.z();
    return d;
}
static G6 gint(G6 s, const Vec3& acc, L dt)
{
    int n = (int)ceill(fabsl(dt) / 5) + 1;
    L h = dt / n;
    auto ax = [](const G6& a, const G6& b, L k) { G6 o; for (int i = 0; i < 6; ++i) o.x[i] = a.x[i] + k * b.x[i]; return o; };
    for (int i = 0; i < n; ++i)
    {
        G6 a = gdot(s, acc), b = gdot(ax(s, a, h / 2), acc), c = gdot(ax(s, b, h / 2), acc), d = gdot(ax(s, c, h), acc);
        for (int j = 0; j < 6; ++j) s.x[j] += h / 6 * (a.x[j] + 2 * b.x[j] + 2 * c.x[j] + d.x[j]);
    }
    return s;
}
static ephemeris::GlonassEphemeris glo(int k)
{
    static const double P[4][6] = {{-2.0001e7, 8.7299e6, 1.3051e7, -900, 1500, -2900}, {7003008.789, -12206626.953, 21280765.625, 783.5417, 2804.2530, 1352.5150},
                                   {2.55e7, 0, 0, 0, 1200, 3000}, {0, 1e3, -2.55e7, 3500, -500, 10}};
    ephemeris::GlonassEphemeris e(9);
    e.gnssID = GnssID::Glonass; e.sat = 9; e.slot = 3;
    e.toe = UTCTime(1561988124, k == 1 ? 500000000 : 0);
    e.pos = Vec3(P[k][0], P[k][1], P[k][2]); e.vel = Vec3(P[k][3], P[k][4], P[k][5]);
    e.acc = k == 2 ? Vec3(0, 0, 0) : Vec3(1.7e-6, -5.41e-6 * k, 2.8e-6);
    e.taun = k ? -4.5e-5 : 1e-4; e.gamn = k == 2 ? 0 : -9e-13 * (k + 1);
    return e;
}
static void glonass_grid()
{
    std::vector<double> D = {0, 1e-9, 2e-9, 0.25, -0.25, 1, -1, 30, 59.999999999, 60, 60.000000001, -60, -60.5, 119.5, 900, -900, 901.25, -1799.75, 1800, 3600, -3600};
    // every size of the part left after the last whole step, of either sign
    for (double whole : {0.0, 60.0, -60.0, 840.0, -900.0})
        for (double part : {1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 5e-4, 9.99e-4, 1e-3, 5e-3, 0.01, 0.1, 0.5, 5.0, 29.0, 45.0, 59.9, 59.9999})
            for (double sg : {1.0, -1.0}) D.push_back(whole + sg * part);
    uint64_t n = 0;
    for (int k = 0; k < 4; ++k) for (double dt : D)
    {
        if (!mine(n++)) continue;
        ephemeris::GlonassEphemeris e = glo(k);
        ctx("Glonass state %d, %.9f s from toe", k, dt);
        UTCTime t = e.toe + dt;
        L d = (L)(t.sec - e.toe.sec) + 1e-9L * (t.nsec - e.toe.nsec);
        SatelliteState s;
        eph2Sat(t, e, make_out(s));
        eval();
        G6 r{{e.pos.x(), e.pos.y(), e.pos.z(), e.vel.x(), e.vel.y(), e.vel.z()}};
        r = gint(r, e.acc, d);
        double dp = dist(V{r.x[0], r.x[1], r.x[2]}, s.pos), dv = dist(V{r.x[3], r.x[4], r.x[5]}, s.vel);
        VH_EXPECT(dp < 0.01, "Glonass position", "off by %.6g m", dp);
        VH_EXPECT(dv < 1e-5, "Glonass velocity", "off by %.6g m/s", dv);
        VH_EXPECT(fabsl(-e.taun + e.gamn * d - s.clk(0)) < 1e-18L && s.clk(1) == e.gamn, "Glonass clock", "%.9g %.9g", s.clk(0), s.clk(1));
        VH_EXPECT(s.t == t, "the state carries its time", "-");
        nontrivial(hbytes(s.pos.data(), 24, 77)); outcome((uint64_t)(dp * 1e6));
    }
    // every pair of earlier query and query on one state object, with and without another ephemeris in between
    for (int k = 0; k < 4; ++k) for (int k0 = 0; k0 < 4; ++k0) for (double a : D) for (double b : {0.0, 1e-9, 59.5, 61.0, -200.0, 905.0})
    {
        if (!mine(n++)) continue;
        ctx("Glonass state %d queried at %.9f on a state object that held satellite state %d at %.9f", k, b, k0, a);
        ephemeris::GlonassEphemeris e0 = glo(k0), e = glo(k);
        SatelliteState s, f;
        eph2Sat(e0.toe + a, e0, make_out(s));
        eph2Sat(e.toe + b, e, make_out(s));
        eph2Sat(e.toe + b, e, make_out(f));
        eval();
        VH_EXPECT((s.pos - f.pos).norm() < 0.01 && (s.vel - f.vel).norm() < 1e-5 && (s.clk - f.clk).norm() < 1e-18, "a satellite state does not depend on earlier ones",
                  "%.6g m", (s.pos - f.pos).norm());
        nontrivial(mix(hbytes(&a, 8), hbytes(&b, 8)) + k * 4 + k0);
    }
}
// the receiver sees the satellite where it was when the signal left
template <typename E> void cache_case(SatelliteCache& c, const Satellite<E>& sat, const UTCTime& t, const Vec3& r, const char* nm)
{
    c.update(t, r, sat);
    eval();
    L tau = (L)(t.sec - c.state.t.sec) + 1e-9L * (t.nsec - c.state.t.nsec);
    VH_EXPECT(tau > 0.05L && tau < 0.2L, "the signal travels for a plausible time", "%.9g s", (double)tau);
    SatelliteState ref;
    sat.getState(c.state.t, make_out(ref));
    VH_EXPECT((ref.pos - c.state.pos).norm() < 1e-3 && (ref.vel - c.state.vel).norm() < 1e-3 && (ref.clk - c.state.clk).norm() < 1e-15, "the cached state is the satellite's at the cached time", "%.6g m", (ref.pos - c.state.pos).norm());
    L w = OMG * tau, px = c.state.pos.x() * cosl(w) + c.state.pos.y() * sinl(w), py = -c.state.pos.x() * sinl(w) + c.state.pos.y() * cosl(w);
    L rho = sqrtl((px - r.x()) * (px - r.x()) + (py - r.y()) * (py - r.y()) + ((L)c.state.pos.z() - r.z()) * ((L)c.state.pos.z() - r.z()));
    L el_err = rho - C * tau;
    // 1 mm of satellite motion is allowed, which is up to c/v = 8e4 mm of range time; the time step itself is 1 ns (0.3 m)
    VH_EXPECT(fabsl(el_err) < 80.0L, "the signal's travel time matches the distance", "%s: %.6g m", nm, (double)el_err);
    // the satellite position itself must be right to the millimetres
    L tau_true = rho / C;
    for (int i = 0; i < 6; ++i)
    {
        UTCTime tt = t - (double)tau_true;
        SatelliteState q; sat.getState(tt, make_out(q));
        L ww = OMG * tau_true, qx = q.pos.x() * cosl(ww) + q.pos.y() * sinl(ww), qy = -q.pos.x() * sinl(ww) + q.pos.y() * cosl(ww);
        tau_true = sqrtl((qx - r.x()) * (qx - r.x()) + (qy - r.y()) * (qy - r.y()) + ((L)q.pos.z() - r.z()) * ((L)q.pos.z() - r.z())) / C;
        ref = q;
    }
    VH_EXPECT((ref.pos - c.state.pos).norm() < 5e-3, "the satellite is where it was when the signal left", "off by %.6g m", (ref.pos - c.state.pos).norm());
    L sag = (c.state.pos.x() * (L)r.y() - c.state.pos.y() * (L)r.x()) * OMG / C;
    VH_EXPECT(fabsl(sag - c.sagnac) < 1e-3L, "the Sagnac correction belongs to this satellite and receiver", "off by %.6g m", (double)(sag - c.sagnac));
    AtmosphericCorrection a;
    computeAtmCorrection(t, r, c.state, make_out(a));
    VH_EXPECT(fabs(a.ionospheric_delay_m - c.atm.ionospheric_delay_m) < 1e-9 && fabs(a.tropospheric_delay_m - c.atm.tropospheric_delay_m) < 1e-9,
              "the atmospheric delays belong to this satellite and receiver", "-");
    nontrivial(hbytes(c.state.pos.data(), 24, 5)); outcome((uint64_t)(double)(tau * 1e6L));
}
template <typename E> void cache_grid(const std::vector<E>& es, const char* nm, const std::vector<double>& dts)
{
    uint64_t n = 0;
    for (size_t i = 0; i < es.size(); ++i)
        for (double lat : {-89.0, -40.0, 0.0, 33.3, 71.0}) for (double lon : {-180.0, -111.6, -10.0, 0.0, 60.0, 130.0}) for (double alt : {0.0, 8000.0})
        {
            if (!mine(n++)) continue;
            Satellite<E> sat(es[i].gnssID, 9);
            sat.addEph(es[i]);
            Vec3 r = utils::WGS84::lla2ecef(Vec3(deg2Rad(lat), deg2Rad(lon), alt));
            SatelliteCache c;
            for (double dt : dts)
            {
                ctx("%s satellite %zu seen from %g %g %g, %g s from toe", nm, i, lat, lon, alt, dt);
                SatelliteState s; sat.getState(es[i].toe + dt, make_out(s));
                if (getAzEl(r, s).el < 0.01) { extra("below the horizon"); continue; }
                cache_case(c, sat, es[i].toe + dt, r, nm);                     // a cache with a history
                SatelliteCache fresh; cache_case(fresh, sat, es[i].toe + dt, r, nm);
                VH_EXPECT((c.state.pos - fresh.state.pos).norm() < 2e-3 && c.state.t - fresh.state.t < 1e-6 && fresh.state.t - c.state.t < 1e-6 && fabs(c.sagnac - fresh.sagnac) < 1e-3,
                          "the cache answers for the time and place asked, whatever was asked before", "%.6g m", (c.state.pos - fresh.state.pos).norm());
            }
        }
}
int main()
{
    init();
    kepler_grid<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS");
    kepler_grid<ephemeris::GalileoEphemeris>(GnssID::Galileo, "Galileo");
    if (first()) { stale<ephemeris::GPSEphemeris>(GnssID::GPS, "GPS"); stale<ephemeris::GalileoEphemeris>(GnssID::Galileo, "Galileo"); }
    glonass_grid();
    std::vector<ephemeris::GPSEphemeris> gs; std::vector<ephemeris::GalileoEphemeris> es; std::vector<ephemeris::GlonassEphemeris> rs;
    for (int i = 0; i < (thorough() ? 12 : 6); ++i)
    {
        gs.push_back(make<ephemeris::GPSEphemeris>(GnssID::GPS, i % 2 ? 0.02 : 0.001, M0[(i * 5) % 12], i % 3, i % 3));
        es.push_back(make<ephemeris::GalileoEphemeris>(GnssID::Galileo, i % 2 ? 0.0 : 0.01, M0[(i * 7 + 1) % 12], (i + 1) % 3, i % 3));
    }
    for (int k = 0; k < 4; ++k) rs.push_back(glo(k));
    cache_grid(gs, "GPS", {0.0, 0.05, 900.0, -3600.0, 7000.0, -7000.0, 33.3});
    cache_grid(es, "Galileo", {0.0, 0.05, 900.0, -3600.0, 7000.0, -7000.0, 33.3});
    cache_grid(rs, "Glonass", {0.0, 0.05, 900.0, -900.0, 33.3, 1.0});
    sample("GPS ecc 0.02 m0 -pi/2, parameters with all harmonic corrections, toe in the last seconds of a week, 3600 s later");
    finish();
}
