// S02: every ephemeris reaches the satellite it belongs to and no other; only the satellite discovered first makes room for a new one.
#include "vh.h"
#include <deque>
#include "core/sat_manager.h"
using namespace mc;
using namespace vh;
static const int SYS[3] = {GnssID::GPS, GnssID::Glonass, GnssID::Galileo};
struct Sat { int num; std::map<int, int> eph; };
static const UTCTime T[3] = {UTCTime(1600000000, 0), UTCTime(1600007200, 0), UTCTime(1600003600, 5)};

struct World
{
    SatelliteManager m;
    std::deque<Sat> q[3];
    int cap;
    int tick = 0;
    void feed(int s, int num, int t)
    {
        ++tick;
        if (s == 0) { ephemeris::GPSEphemeris e(num); e.gnssID = SYS[0]; e.sat = num; e.toe = T[t]; e.toes = tick; m.ephCb(e); }
        if (s == 1) { ephemeris::GlonassEphemeris e(num); e.gnssID = SYS[1]; e.sat = num; e.toe = T[t]; e.iode = tick; m.ephCb(e); }
        if (s == 2) { ephemeris::GalileoEphemeris e(num); e.gnssID = SYS[2]; e.sat = num; e.toe = T[t]; e.toes = tick; m.ephCb(e); }
        Sat* x = nullptr;
        for (auto& y : q[s]) if (y.num == num) x = &y;
        if (!x)
        {
            if ((int)q[s].size() == cap) q[s].pop_front();
            q[s].push_back(Sat{num, {}});
            x = &q[s].back();
        }
        x->eph[t] = tick;
        transition();
    }
    void compare(const std::vector<int>& nums)
    {
        for (int s = 0; s < 3; ++s)
            for (int n : nums)
            {
                const satellite::SatelliteBase* sat = nullptr;
                Error e = m.getSat(SYS[s], n, Out<const satellite::SatelliteBase*>(sat));
                const Sat* x = nullptr;
                for (auto& y : q[s]) if (y.num == n) x = &y;
                if (!x) { VH_EXPECT(!e.ok(), "a satellite without ephemeris is reported as unknown", "system %d satellite %d", SYS[s], n); continue; }
                if (!e.ok() || !sat) { violation("a satellite with an ephemeris is found", str("system %d satellite %d @ ", SYS[s], n) + g().sh->ctx); continue; }
                VH_EXPECT(sat->gnssId() == SYS[s] && sat->sat_num() == n, "the satellite asked for is the one returned", "asked %d/%d got %d/%d", SYS[s], n, sat->gnssId(), sat->sat_num());
                VH_EXPECT(sat->almanacSize() == (int)x->eph.size(), "a satellite holds exactly its own ephemerides", "system %d satellite %d: %d for %zu", SYS[s], n, sat->almanacSize(), x->eph.size());
                for (auto& te : x->eph)
                {
                    int tag = s == 1 ? ((const satellite::Satellite<ephemeris::GlonassEphemeris>*)sat)->findClosestEphemeris(T[te.first]).iode
                                     : s == 0 ? (int)((const satellite::Satellite<ephemeris::GPSEphemeris>*)sat)->findClosestEphemeris(T[te.first]).toes
                                              : (int)((const satellite::Satellite<ephemeris::GalileoEphemeris>*)sat)->findClosestEphemeris(T[te.first]).toes;
                    VH_EXPECT(tag == te.second, "a satellite holds exactly its own ephemerides", "system %d satellite %d: message %d for %d", SYS[s], n, tag, te.second);
                }
            }
    }
    uint64_t hash()
    {
        uint64_t h = 5;
        for (auto& d : q) { h = mix(h, 77); for (auto& x : d) { h = mix(h, x.num); for (auto& e : x.eph) h = mix(h, e.first * 131); } }
        return h;
    }
};
int main()
{
    init();
    // how many satellites fit: measured once, and required to be enough for everything in view
    int cap = 0;
    {
        ctx("capacity");
        SatelliteManager m;
        for (int n = 1; n <= 200; ++n) { ephemeris::GPSEphemeris e(n); e.gnssID = GnssID::GPS; e.sat = n; e.toe = T[0]; m.ephCb(e); }
        for (int n = 1; n <= 200; ++n) { const satellite::SatelliteBase* s = nullptr; if (m.getSat(GnssID::GPS, n, Out<const satellite::SatelliteBase*>(s)).ok()) ++cap; }
        VH_EXPECT(cap >= 24, "at least a full constellation of 24 satellites fits", "%d", cap);
    }
    int N = thorough() ? 6 : 5;
    // operations: system x satellite {known a, known b / new ones} x reference time
    std::vector<int> nums{1, 2, 3, 7, 40, 41, 63, 255};
    for (int i = 10; i < 40; ++i) nums.push_back(i);
    for (int pre : {0, cap - 2, cap - 1, cap, cap + 1})
        for (int n = 1; n <= (pre ? N - 1 : N); ++n)
            words(7, n, [&](const std::vector<int>& w) {
                ctx("prefill %d, operations %s", pre, wstr(w).c_str());
                World x; x.cap = cap;
                for (int i = 0; i < pre; ++i) { x.feed(0, 10 + i, 0); if (i % 2) x.feed(1, 10 + i, 1); if (pre < cap) x.feed(2, 10 + i, 2); }
                for (int op : w)
                {
                    switch (op)
                    {
                    case 0: x.feed(0, 1, 0); break;
                    case 1: x.feed(0, 2, 1); break;
                    case 2: x.feed(1, 1, 0); break;
                    case 3: x.feed(2, 1, 2); break;
                    case 4: x.feed(0, 10, 1); break;    // the oldest one prefilled
                    case 5: x.feed(2, 255, 0); break;
                    case 6: x.feed(0, 3 + (x.tick % 2) * 4, 2); break;
                    }
                    state(x.hash());
                }
                x.compare(nums);
                trace();
            });
    // every pair of satellite numbers of a system
    for (int sys = 0; sys < 3; ++sys)
        for (int a = 1; a < 256; ++a)
        {
            if (!mine(sys * 256 + a)) continue;
            for (int b = 1; b < 256; ++b)
            {
                ctx("system %d satellites %d and %d", SYS[sys], a, b);
                World x; x.cap = cap;
                x.feed(sys, a, 0); x.feed(sys, b, 1);
                x.compare({a, b, a % 255 + 1, a ^ 64, a ^ 128, (a + b) & 255});
                eval();
            }
        }
    if (first())
        for (int gid = -1; gid < 256; ++gid)
        {
            ctx("system %d", gid);
            World x; x.cap = cap;
            x.feed(0, 1, 0); x.feed(1, 1, 0); x.feed(2, 1, 0);
            const satellite::SatelliteBase* s = nullptr;
            bool known = gid == SYS[0] || gid == SYS[1] || gid == SYS[2];
            VH_EXPECT(x.m.getSat(gid, 1, Out<const satellite::SatelliteBase*>(s)).ok() == known, "an unsupported system is reported", "-");
        }
    sample(str("capacity %d; prefill %d GPS satellites, then words over 7 ephemeris messages", cap, cap - 1));
    finish();
}
