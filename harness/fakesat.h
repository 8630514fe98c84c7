// A satellite on a circular orbit, for models that only need to ask where it is.
#pragma once
#include "common/satellite/satellite.h"
#include "dual.h"
struct FakeSat : mc::satellite::SatelliteBase
{
    ld phase, incl, node, rate = 1.1e-4L, radius = 2.656e7L, c0, c1;
    double lambda;
    mc::UTCTime t0;
    FakeSat(uint8_t sys, uint8_t num, ld ph, ld in, ld no, const mc::UTCTime& t, ld a, ld b, double lam) : mc::satellite::SatelliteBase(sys, num), phase(ph), incl(in), node(no), c0(a), c1(b), lambda(lam), t0(t) {}
    void exact(ld s, ld p[3], ld v[3], ld c[2]) const   // s seconds after t0
    {
        const ld u = phase + rate * s;
        const ld x = radius * cosl(u), y = radius * sinl(u), vx = -radius * rate * sinl(u), vy = radius * rate * cosl(u);
        const ld cn = cosl(node), sn = sinl(node), ci = cosl(incl), si = sinl(incl);
        p[0] = cn * x - sn * ci * y; p[1] = sn * x + cn * ci * y; p[2] = si * y;
        v[0] = cn * vx - sn * ci * vy; v[1] = sn * vx + cn * ci * vy; v[2] = si * vy;
        c[0] = c0 + c1 * s; c[1] = c1;
    }
    ld since(const mc::UTCTime& t) const { return (ld)(t.sec - t0.sec) + ((ld)t.nsec - (ld)t0.nsec) * 1e-9L; }
    mc::Error getState(const mc::UTCTime& t, mc::Out<mc::satellite::SatelliteState> st) const override
    {
        ld p[3], v[3], c[2];
        exact(since(t), p, v, c);
        st->t = t;
        for (int i = 0; i < 3; ++i) { st->pos(i) = p[i]; st->vel(i) = v[i]; }
        st->clk = mc::Vec2(c[0], c[1]);
        return mc::Error::none();
    }
    double dlambda = 0;   // how much longer the wave is on each further frequency
    double carrierWavelength(int f) const override { return lambda + dlambda * f; }
    int almanacSize() const override { return 1; }
    // range of a signal received at time t (s after t0) at rec: solves |p(t - tau) - rec| + earth rotation = c tau
    struct Hop { ld range, p[3], v[3], c[2]; };
    Hop hop(ld t, const ld rec[3]) const
    {
        Hop h;
        ld tau = 0.07L;
        for (int i = 0; i < 20; ++i)
        {
            exact(t - tau, h.p, h.v, h.c);
            ld n = 0;
            for (int k = 0; k < 3; ++k) n += (h.p[k] - rec[k]) * (h.p[k] - rec[k]);
            h.range = sqrtl(n) + (ld)mc::OMEGA_EARTH * (h.p[0] * rec[1] - h.p[1] * rec[0]) / (ld)mc::C_LIGHT;
            tau = h.range / (ld)mc::C_LIGHT;
        }
        return h;
    }
};
