// W01: the geodetic, earth-fixed and local-level coordinates of a point name the same point, everywhere on and above the Earth.
#include "vh.h"
#include "common/defs.h"
#include "utils/wgs84.h"
using namespace mc;
using namespace vh;
using utils::WGS84;
typedef Eigen::Vector3d V3;
typedef long double L;
static const L PIL = 3.14159265358979323846264338327950288L, Aw = 6378137.0L, Fw = 1 / 298.257223563L;
static void fwd(L lat, L lon, L h, L* p)
{
    L e2 = Fw * (2 - Fw), N = Aw / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
    p[0] = (N + h) * cosl(lat) * cosl(lon); p[1] = (N + h) * cosl(lat) * sinl(lon); p[2] = (N * (1 - e2) + h) * sinl(lat);
}
static double d3(const L* a, const V3& b) { return (double)sqrtl((a[0] - b.x()) * (a[0] - b.x()) + (a[1] - b.y()) * (a[1] - b.y()) + (a[2] - b.z()) * (a[2] - b.z())); }
static double ang(double a, double b) { double d = std::fabs(a - b); while (d > M_PI) d = std::fabs(d - 2 * M_PI); return d; }
static void axes(L la, L lo, L R[3][3])   // rows: north, east, down
{
    L r[3][3] = {{-sinl(la) * cosl(lo), -sinl(la) * sinl(lo), cosl(la)}, {-sinl(lo), cosl(lo), 0}, {-cosl(la) * cosl(lo), -cosl(la) * sinl(lo), -sinl(la)}};
    memcpy(R, r, sizeof r);
}
int main()
{
    init();
    std::vector<double> LAT = {-90, -89.9999999, -89.99, -80, -63.4349, -45, -20, -1e-3, -1e-9, 0, 1e-9, 0.5, 30, 40.246184, 45, 60, 77.7, 89, 89.9999, 90};
    std::vector<double> LON = {-180, -179.9999999, -135, -111.647769, -90, -45, -1e-9, 0, 1e-9, 1, 45, 89.9999, 90, 135, 179.9999999, 180};
    std::vector<double> ALT = {-11000, -100, 0, 1e-3, 1387.998309, 8848, 1e5, 2e6, 2.02e7, 3.6e7};
    if (thorough()) for (int i = -89; i < 90; i += 3) { LAT.push_back(i + 0.37); LON.push_back(i * 2 + 0.11); }
    std::vector<V3> NED = {{0, 0, 0}, {1e-3, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-54.976484, 1.276565, 0.000237}, {1000, -2000, 300}, {-1e5, 3e5, -2e4}};
    uint64_t n = 0;
    for (double lat : LAT) for (double lon : LON) for (double alt : ALT)
    {
        if (!mine(n++)) continue;
        ctx("lat %.9g lon %.9g alt %g", lat, lon, alt);
        double dla = deg2Rad(lat), dlo = deg2Rad(lon);
        L la = dla, lo = dlo, p[3];
        fwd(la, lo, alt, p);
        V3 e = WGS84::lla2ecef(V3(dla, dlo, alt)), e2;
        WGS84::lla2ecef(V3(dla, dlo, alt), &e2);
        eval();
        VH_EXPECT(d3(p, e) < 1e-4 && (e - e2).norm() < 1e-6, "geodetic to earth-fixed", "off by %.6g m", d3(p, e));   // the semi-minor axis is given to 1e-4 m or so
        V3 g = WGS84::ecef2lla(e), g2;
        WGS84::ecef2lla(e, &g2);
        VH_EXPECT((g - g2).cwiseAbs().template maxCoeff<Eigen::PropagateNaN>() < 1e-7, "both forms agree", "-");
        bool pole = std::fabs(lat) > 89.99999;
        VH_EXPECT(std::fabs(g.x() - dla) < 1e-11, "latitude survives the round trip", "off by %.6g rad", g.x() - dla);
        if (!pole) VH_EXPECT(ang(g.y(), dlo) * std::cos(dla) < 1e-12, "longitude survives the round trip", "off by %.6g rad", ang(g.y(), dlo));
        VH_EXPECT(std::fabs(g.z() - alt) < 2e-5, "altitude survives the round trip", "off by %.6g m", g.z() - alt);
        V3 e3 = WGS84::lla2ecef(g);
        VH_EXPECT((e3 - e).norm() < 2e-4, "earth-fixed to geodetic and back", "off by %.6g m", (e3 - e).norm());
        nontrivial(hbytes(e.data(), 24)); outcome(hbytes(&alt, 8, (uint64_t)(lat + 100)));
        // local level frame
        L R[3][3]; axes(g.x(), g.y(), R);
        auto dq = WGS84::dq_ecef2ned(e); decltype(dq) dqb; WGS84::dq_ecef2ned(e, &dqb);
        for (auto& v : NED)
        {
            L q[3]; for (int i = 0; i < 3; ++i) q[i] = e[i] + R[0][i] * v.x() + R[1][i] * v.y() + R[2][i] * v.z();
            V3 w = WGS84::ned2ecef(dq, v), wb; WGS84::ned2ecef(dqb, v, &wb);
            eval();
            VH_EXPECT(d3(q, w) < 1e-6 && (w - wb).norm() < 1e-8, "local level to earth-fixed", "offset %g %g %g: %.6g m", v.x(), v.y(), v.z(), d3(q, w));
            V3 b = WGS84::ecef2ned(dq, w), bb; WGS84::ecef2ned(dqb, w, &bb);
            VH_EXPECT((b - v).norm() < 1e-6 && (b - bb).norm() < 1e-8, "earth-fixed to local level", "offset %g %g %g: %.6g m", v.x(), v.y(), v.z(), (b - v).norm());
            if (pole) continue;
            V3 l0(dla, dlo, alt), l1 = WGS84::ned2lla(l0, v), l1b; WGS84::ned2lla(l0, v, &l1b);
            V3 x1 = WGS84::lla2ecef(l1);
            VH_EXPECT((x1 - w).norm() < 1e-3 && l1 == l1b, "local level to geodetic", "offset %g %g %g: %.6g m", v.x(), v.y(), v.z(), (x1 - w).norm());
            V3 v1 = WGS84::lla2ned(l0, l1), v1b; WGS84::lla2ned(l0, l1, &v1b);
            VH_EXPECT((v1 - v).norm() < 1e-3 && v1 == v1b, "geodetic to local level", "offset %g %g %g: %.6g m", v.x(), v.y(), v.z(), (v1 - v).norm());
        }
    }
    sample("89.9999 N 45 W at 2000 km: earth-fixed, back, and with seven local offsets");
    finish();
}
