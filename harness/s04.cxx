// S04: azimuth/elevation and the atmospheric delays follow their published models for every receiver, satellite and time.
#include "vh.h"
#include "common/defs.h"
#include "common/satellite/atm_correction.h"
#include "common/satellite/azel.h"
#include "utils/wgs84.h"
using namespace mc;
using namespace mc::satellite;
using namespace vh;
typedef long double L;
static const L PIL = 3.14159265358979323846264338327950288L;
static const L Aw = 6378137.0L, Fw = 1 / 298.257223563L;
static void fwd(L lat, L lon, L h, L* p)
{
    L e2 = Fw * (2 - Fw), N = Aw / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
    p[0] = (N + h) * cosl(lat) * cosl(lon); p[1] = (N + h) * cosl(lat) * sinl(lon); p[2] = (N * (1 - e2) + h) * sinl(lat);
}
static double angdiff(L a, L b) { L d = a - b; while (d > PIL) d -= 2 * PIL; while (d < -PIL) d += 2 * PIL; return (double)fabsl(d); }
static L klob(L lat, L lon, L az, L el, L tsec, bool* edge)
{
    static const L a[4] = {0.1118E-07L, -0.7451E-08L, -0.5961E-07L, 0.1192E-06L}, b[4] = {0.1167E+06L, -0.2294E+06L, -0.1311E+06L, 0.1049E+07L};
    L psi = 0.0137L / (el / PIL + 0.11L) - 0.022L;
    L phi = lat / PIL + psi * cosl(az);
    if (phi > 0.416L) phi = 0.416L; if (phi < -0.416L) phi = -0.416L;
    L lam = lon / PIL + psi * sinl(az) / cosl(phi * PIL);
    L m = phi + 0.064L * cosl((lam - 1.617L) * PIL);
    L t = 43200.0L * lam + tsec; t = fmodl(fmodl(t, 86400.0L) + 86400.0L, 86400.0L);
    L amp = 0, per = 0; for (int i = 3; i >= 0; --i) { amp = amp * m + a[i]; per = per * m + b[i]; }
    if (amp < 0) amp = 0; if (per < 72000.0L) per = 72000.0L;
    L x = 2 * PIL * (t - 50400.0L) / per, f = 1 + 16 * powl(0.53L - el / PIL, 3);
    if (fabsl(fabsl(x) - 1.57L) < 1e-9L) *edge = true;
    return 299792458.0L * f * (fabsl(x) < 1.57L ? 5e-9L + amp * (1 - x * x / 2 + x * x * x * x / 24) : 5e-9L);
}
static L saas(L lat, L hgt, L el)
{
    if (hgt < -100 || hgt > 1e4L || el <= 0) return 0;
    L h = hgt < 0 ? 0 : hgt, P = 1013.25L * powl(1 - 2.2557e-5L * h, 5.2568L), T = 15.0L - 6.5e-3L * h + 273.16L;
    L e = 6.108L * 0.7L * expl((17.15L * T - 4684.0L) / (T - 38.45L)), z = PIL / 2 - el;
    return 0.0022768L * P / (1 - 0.00266L * cosl(2 * lat) - 0.00028L * h / 1000) / cosl(z) + 0.002277L * (1255.0L / T + 0.05L) * e / cosl(z);
}
int main()
{
    init();
    static const double LAT[] = {-90, -89.999, -75, -60.25, -30, -1e-7, 0, 12, 40.246184, 63.1, 74.88, 75.2, 88, 90}, LON[] = {-180, -179.999, -111.6, -45, 0, 1e-6, 33, 90, 135, 180};
    static const double ALT[] = {-150, -100.5, -50, 0, 1387.99, 9000, 9999.9, 10001}, AZ[] = {0, 30, 90, 135, 180, -100, -90, -1e-6, -179.9}, EL[] = {-60, -5, 1e-3, 2, 5, 15, 45, 80, 89.5};
    uint64_t n = 0;
    for (double lat : LAT) for (double lon : LON) for (double alt : ALT) for (double az : AZ) for (double el : EL)
    {
        if (!mine(n++)) continue;
        ctx("receiver %g %g %g azimuth %g elevation %g", lat, lon, alt, az, el);
        L la = lat * PIL / 180, lo = lon * PIL / 180, A = az * PIL / 180, E = el * PIL / 180, p[3];
        fwd(la, lo, alt, p);
        Vec3 rec((double)p[0], (double)p[1], (double)p[2]);
        L nn = cosl(E) * cosl(A), ee = cosl(E) * sinl(A), uu = sinl(E);
        L los[3] = {-sinl(la) * cosl(lo) * nn - sinl(lo) * ee + cosl(la) * cosl(lo) * uu, -sinl(la) * sinl(lo) * nn + cosl(lo) * ee + cosl(la) * sinl(lo) * uu, cosl(la) * nn + sinl(la) * uu};
        bool pole = fabs(lat) > 89.99;   // azimuth has no meaning at the poles themselves, and is ill-conditioned next to them
        for (double range : {1.0, 2.2e7})
        {
            SatelliteState s; s.pos = Vec3((double)(p[0] + range * los[0]), (double)(p[1] + range * los[1]), (double)(p[2] + range * los[2]));
            AzimuthElevation ae = range > 2 ? getAzEl(rec, s) : los2AzEl(rec, Vec3((double)los[0], (double)los[1], (double)los[2]));
            eval();
            VH_EXPECT(fabsl(ae.el - E) < 1e-7L, "elevation", "off by %.6g rad", (double)(ae.el - E));
            if (!pole) VH_EXPECT(angdiff(ae.az, A) < 1e-7 / std::cos((double)E) * 1.1, "azimuth", "off by %.6g rad", angdiff(ae.az, A));
        }
        AzimuthElevation ae{(double)A, (double)E};
        Vec3 lla((double)la, (double)lo, alt);
        L zt = saas(la, alt, E);
        double tr = computeTroposphericDelay(UTCTime(1561988124, 0), lla, ae);
        VH_EXPECT(fabsl(zt - tr) <= 1e-9L * (1 + fabsl(zt)), "tropospheric delay (Saastamoinen)", "%.9g, expected %.9g", tr, (double)zt);
        outcome((uint64_t)(tr * 100));
        if (el <= 0) continue;   // the Klobuchar model is defined above the horizon
        for (int tow : {0, 20000, 41000, 43199, 50382, 64000, 86399, 86400 * 3 + 30000, 604799})
        {
            UTCTime t = UTCTime::fromGPS(2060, tow * 1000 % 604800000);
            bool edge = false, okc = false; double got = computeIonosphericDelay(t, lla, ae); L best = 0;
            eval();
            // the model wants GPS time, which differs from UTC by the leap seconds; whether they are in is not judged here
            for (L off : {0.0L, 18.0L, -18.0L, 36.0L}) { best = klob(la, lo, A, E, tow + off, &edge); if (fabsl(best - got) < 1e-6L) okc = true; }
            VH_EXPECT(okc || edge, "ionospheric delay (Klobuchar)", "time of week %d: %.9g, expected about %.9g", tow, got, (double)best);
            outcome((uint64_t)(got * 1000));
        }
        nontrivial(hbytes(rec.data(), 24, hbytes(&ae, sizeof ae)));
        // both together, as the range residuals use them
        SatelliteState s; s.pos = Vec3((double)(p[0] + 2.2e7 * los[0]), (double)(p[1] + 2.2e7 * los[1]), (double)(p[2] + 2.2e7 * los[2]));
        if (alt > -90 && alt < 9998)
        {
            UTCTime t = UTCTime::fromGPS(2060, 50000000);
            AtmosphericCorrection c; VH_EXPECT(computeAtmCorrection(t, rec, s, make_out(c)).ok(), "delays are computed", "-");
            VH_EXPECT(fabsl(c.tropospheric_delay_m - zt) < 1e-4L * (1 + zt) * (el < 0.1 ? 100 : 1), "combined correction, troposphere", "%.9g %.9g", c.tropospheric_delay_m, (double)zt);
            double io = computeIonosphericDelay(t, lla, ae);
            bool edge = false; L ik = klob(la, lo, A, E, 50000.0L, &edge);
            (void)ik;
            if (!pole && lat > -89.9) VH_EXPECT(fabs(c.ionospheric_delay_m - io) < 1e-3 || edge, "combined correction, ionosphere", "%.9g %.9g", c.ionospheric_delay_m, io);
        }
    }
    sample("receiver 63.1 N 135 E 1388 m, satellite at azimuth -100, elevation 15, nine times of week");
    finish();
}
