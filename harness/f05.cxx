// F05: a factor keeps what it was built from: whatever becomes of the data, weights and frames it was given, of the
// satellite's ephemeris and of the object it was copied from, it goes on saying the same.
#include "vh.h"
#include <cstring>
#include <memory>
#include <new>
#include "models/pose_error_model.h"
#include "models/gnss_dynamics_model.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
#include "models/imu_model.h"
#include "fakesat.h"
#include "rots.h"
using namespace mc;
using namespace vh;
using DQ = math::DQuat<double>;
using Q = math::Quat<double>;
typedef std::vector<double> Out_;
static const UTCTime T0(1600000000, 250000000);

// memory for one object; what was there before and what comes after is rubbish
template <class F> struct Box
{
    alignas(64) unsigned char raw[2][sizeof(F)];
    int at = 0;
    bool full = false;
    Box() { memset(raw, 0x5A, sizeof raw); }
    ~Box() { drop(); }
    F& get() { return *reinterpret_cast<F*>(raw[at]); }
    void drop() { if (full) { get().~F(); full = false; memset(raw[at], 0xA5, sizeof(F)); } }
    template <class M> void take(M make) { drop(); make((void*)raw[at]); full = true; }
    void copy(bool move)
    {
        F& o = get();
        const int to = 1 - at;
        if (move) new ((void*)raw[to]) F(std::move(o)); else new ((void*)raw[to]) F((const F&)o);
        o.~F();
        memset(raw[at], 0xA5, sizeof(F));
        at = to;
    }
    void copyAway() { F& o = get(); memset(raw[1 - at], 0x33, sizeof(F)); F* c = new ((void*)raw[1 - at]) F((const F&)o); c->~F(); memset(raw[1 - at], 0xA5, sizeof(F)); }
};

static bool near(const Out_& a, const Out_& b)
{
    for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i])))) return false;
    return true;
}
// evaluates a factor in every mode; true if what is written does not depend on the mode or on what was there before
template <class F> static bool look(const F& f, const std::vector<const double*>& prm, int rows, const std::vector<int>& cols, Out_& out)
{
    std::vector<Out_> J[2]; Out_ r[4];
    for (int k = 0; k < 2; ++k)
    {
        r[k].assign(rows, k ? NAN : 1e300);
        std::vector<double*> jp;
        for (int c : cols) { J[k].push_back(Out_(rows * c, k ? -7.0 : NAN)); }
        for (auto& j : J[k]) jp.push_back(j.data());
        f.Evaluate(prm.data(), r[k].data(), jp.data());
    }
    r[2].assign(rows, NAN);
    f.Evaluate(prm.data(), r[2].data(), nullptr);
    bool same = near(r[0], r[1]) && near(r[0], r[2]);
    for (size_t b = 0; b < cols.size(); ++b)
    {
        std::vector<double*> jp(cols.size(), nullptr);
        Out_ one(rows * cols[b], NAN);
        jp[b] = one.data();
        r[3].assign(rows, NAN);
        f.Evaluate(prm.data(), r[3].data(), jp.data());
        same = same && near(r[3], r[0]) && near(one, J[0][b]) && near(one, J[1][b]);
    }
    out.insert(out.end(), r[0].begin(), r[0].end());
    for (auto& j : J[0]) out.insert(out.end(), j.begin(), j.end());
    eval(3 + cols.size());
    return same;
}

struct Kind
{
    virtual ~Kind() {}
    virtual const char* name() = 0;
    virtual std::vector<std::string> args() = 0;                     // what it is made from
    virtual std::vector<std::string> specials() { return {}; }
    virtual void fresh(int variant) = 0;                             // new arguments, the factor and its shadow
    virtual void scribble(int arg) = 0;
    virtual void kill() = 0;                                         // the memory of all arguments is reused
    virtual void copy(int how) = 0;                                  // 0 copy, 1 move, 2 a copy that is thrown away
    virtual bool special(int) { return true; }                       // false: not possible now
    virtual bool see(Out_& out) = 0;
    virtual Out_ expected() = 0;
    virtual double tol() { return 0; }
    virtual int variants() { return 1; }
};

struct PoseKind : Kind
{
    struct A { DQ anchor; Vec6 Xi; };
    A base; std::unique_ptr<A> a; Box<models::PoseError> f; std::vector<DQ> at;
    const char* name() override { return "pose"; }
    std::vector<std::string> args() override { return {"anchor", "weights"}; }
    int variants() override { return 3; }
    void fresh(int v) override
    {
        const auto R = rots(3, true);
        base.anchor = v == 0 ? DQ::identity() : DQ(R[3 + v], Vec3(100 * v, -3, 0.5));
        base.Xi << 1, 2, 3, 4, 5, 6; if (v == 2) base.Xi << 1, 0, 0.1, 1e3, 2, 0;
        at = {base.anchor, DQ(R[5], Vec3(99, -4, 1)), DQ(R[8], Vec3(0, 0, 2))};
        a.reset(new A(base));
        f.take([&](void* p) { new (p) models::PoseError(a->anchor, a->Xi); });
    }
    void scribble(int i) override { if (i == 0) a->anchor = DQ(rots(3, true)[7], Vec3(8, 9, 10)); else a->Xi.setConstant(77); }
    void kill() override { memset((void*)a.get(), 0x11, sizeof(A)); }
    void copy(int h) override { if (h == 2) f.copyAway(); else f.copy(h); }
    bool seeOf(const models::PoseError& m, Out_& o) { bool ok = true; for (auto& q : at) ok = look(m, {q.data()}, 6, {8}, o) && ok; return ok; }
    bool see(Out_& o) override { return seeOf(f.get(), o); }
    Out_ expected() override { Out_ o; const A keep(base); models::PoseError m(keep.anchor, keep.Xi); seeOf(m, o); return o; }
};

struct ClockKind : Kind
{
    struct A { UTCTime t0, tf; Vec3 Xi; };
    A base; std::unique_ptr<A> a; Box<models::GnssDynamics> f;
    const char* name() override { return "clocks"; }
    std::vector<std::string> args() override { return {"start", "end", "weights"}; }
    int variants() override { return 3; }
    void fresh(int v) override
    {
        base.t0 = T0; base.tf = T0 + (v == 0 ? 0.2 : v == 1 ? 30.000000001 : -1.5); base.Xi = v == 2 ? Vec3(0, 7, 1e3) : Vec3(2, 30, 0.5);
        a.reset(new A(base));
        f.take([&](void* p) { new (p) models::GnssDynamics(a->t0, a->tf, a->Xi); });
    }
    void scribble(int i) override { if (i == 0) a->t0 = a->t0 + 100; else if (i == 1) a->tf = a->tf + 7; else a->Xi = Vec3(5, 6, 7); }
    void kill() override { memset((void*)a.get(), 0x11, sizeof(A)); }
    void copy(int h) override { if (h == 2) f.copyAway(); else f.copy(h); }
    bool seeOf(const models::GnssDynamics& m, Out_& o)
    {
        bool ok = true;
        for (int k = 0; k < 3; ++k)
        {
            const double c1[2] = {k * 12.5, -3.0 + k}, c2[2] = {-250.5, k * 0.25}, s1 = 0.25 * k, s2 = 1;
            ok = look(m, {c1, c2, &s1, &s2}, 3, {2, 2, 1, 1}, o) && ok;
        }
        return ok;
    }
    bool see(Out_& o) override { return seeOf(f.get(), o); }
    Out_ expected() override { Out_ o; const A keep(base); models::GnssDynamics m(keep.t0, keep.tf, keep.Xi); seeOf(m, o); return o; }
};

static FakeSat makeSat(int v) { return FakeSat(GnssID::GPS, 7, 0.3L + v, 0.9L, -1.9L, T0, 1.25e-4L, -3e-11L, 0.1902936728); }
static const Vec3 REC[3] = {Vec3(-1798780.451, -4532215.682, 4099857.983), Vec3(-1798700.451, -4532315.682, 4099757.983), Vec3(4027894.0, 307046.0, 4919474.0)};
static meas::GnssObservation makeObs(double s)
{
    meas::GnssObservation o;
    o.t = T0 + s; o.gnss_id = GnssID::GPS; o.sat_num = 7; o.freq = 1575.42e6; o.pseudorange = 2.2e7 + 800 * s; o.doppler = 450.25 - s; o.carrier_phase = 1.1e8 + 4000 * s;
    return o;
}

struct RangeKind : Kind
{
    struct A { meas::GnssObservation obs; Vec3 rec; Mat3 cov; DQ e2r; };
    A base; std::unique_ptr<A> a; std::unique_ptr<FakeSat> sat; Box<models::PseudorangeModel> f;
    int recAt = 0; FakeSat made = makeSat(0); double tolerance = 0; int v_ = 0;
    const char* name() override { return "pseudorange"; }
    std::vector<std::string> args() override { return {"observation", "reference position", "covariance", "frame"}; }
    std::vector<std::string> specials() override { return {"new ephemeris", "linearise at 0", "linearise at 1", "linearise at 2"}; }
    int variants() override { return 2; }
    void fresh(int v) override
    {
        v_ = v;
        base.obs = makeObs(3); base.rec = REC[0]; base.cov << 4, v, 0, v, 0.25, 0, 0, 0, 1; if (v) base.cov(0, 1) = base.cov(1, 0) = 0.5;
        base.e2r = DQ(rots(3, true)[4 + v], REC[0]);
        a.reset(new A(base)); sat.reset(new FakeSat(makeSat(v))); made = *sat; recAt = 0; tolerance = 0;
        f.take([&](void* p) { new (p) models::PseudorangeModel(a->obs, *sat, a->rec, a->cov, a->e2r); });
    }
    void scribble(int i) override { if (i == 0) a->obs = makeObs(900); else if (i == 1) a->rec = REC[2]; else if (i == 2) a->cov = Mat3::Identity() * 9; else a->e2r = DQ(rots(3, true)[9], REC[2]); }
    void kill() override { memset((void*)a.get(), 0x11, sizeof(A)); }
    void copy(int h) override { if (h == 2) f.copyAway(); else f.copy(h); }
    bool special(int i) override
    {
        if (i == 0) { sat->phase += 0.01L; sat->c0 += 1e-5L; return true; }
        const Vec3 p = REC[i - 1];
        f.get().computeConstants(p);
        recAt = i - 1; made = *sat;
        tolerance = 5e-3;   // the transmission time need only be found to the millimetre
        return true;
    }
    bool seeOf(const models::PseudorangeModel& m, Out_& o)
    {
        bool ok = true;
        for (int k = 0; k < 2; ++k)
        {
            const DQ nb(rots(3, true)[2 + k], Vec3(4 * k, -2, 1)), rn(rots(3, true)[6], Vec3(0.5, k, 0));
            const Vec3 vel(3, -k, 0.25), lev(0.1, 0.2 * k, -0.3); const Vec2 clk(1200 * k, 3); const double sw = 1 - 0.5 * k;
            ok = look(m, {nb.data(), vel.data(), clk.data(), rn.data(), &sw, lev.data()}, 3, {8, 3, 2, 8, 1, 3}, o) && ok;
        }
        return ok;
    }
    bool see(Out_& o) override { return seeOf(f.get(), o); }
    Out_ expected() override { Out_ o; const A keep(base); models::PseudorangeModel m(keep.obs, made, REC[recAt], keep.cov, keep.e2r); seeOf(m, o); return o; }
    double tol() override { return tolerance; }
};

struct PhaseKind : Kind
{
    struct A { meas::GnssObservation o1, o2; Vec3 rec; DQ e2r; double Xi; };
    A base; std::unique_ptr<A> a; std::unique_ptr<FakeSat> sat; Box<models::RelativeCarrierPhase> f; FakeSat made = makeSat(0);
    const char* name() override { return "carrier phase"; }
    std::vector<std::string> args() override { return {"first observation", "second observation", "reference position", "frame", "weight"}; }
    std::vector<std::string> specials() override { return {"new ephemeris", "no satellite any more"}; }
    int variants() override { return 2; }
    void fresh(int v) override
    {
        base.o1 = makeObs(3); base.o2 = makeObs(v ? 33 : 4); base.rec = REC[v]; base.e2r = DQ(rots(3, true)[4 + v], REC[v]); base.Xi = 12.5;
        a.reset(new A(base)); sat.reset(new FakeSat(makeSat(v))); made = *sat;
        f.take([&](void* p) { new (p) models::RelativeCarrierPhase(a->o1, a->o2, *sat, a->rec, a->e2r, a->Xi); });
    }
    void scribble(int i) override { if (i == 0) a->o1 = makeObs(800); else if (i == 1) a->o2 = makeObs(900); else if (i == 2) a->rec = REC[2]; else if (i == 3) a->e2r = DQ(rots(3, true)[9], REC[2]); else a->Xi = 3; }
    void kill() override { memset((void*)a.get(), 0x11, sizeof(A)); }
    void copy(int h) override { if (h == 2) f.copyAway(); else f.copy(h); }
    bool special(int i) override { if (!sat) return false; if (i == 0) { sat->phase += 0.01L; sat->c0 += 1e-5L; sat->lambda = 0.25; } else sat.reset(); return true; }
    bool seeOf(const models::RelativeCarrierPhase& m, Out_& o)
    {
        bool ok = true;
        for (int k = 0; k < 2; ++k)
        {
            const DQ n1(rots(3, true)[2 + k], Vec3(4 * k, -2, 1)), n2(rots(3, true)[3], Vec3(5, k, 1)), rn(rots(3, true)[6], Vec3(0.5, k, 0));
            const Vec2 c1(1200 * k, 3), c2(1300, 2); const double s1 = 1, s2 = 0.5 * k; const Vec3 lev(0.1, 0.2 * k, -0.3);
            ok = look(m, {n1.data(), n2.data(), c1.data(), c2.data(), &s1, &s2, rn.data(), lev.data()}, 1, {8, 8, 2, 2, 1, 1, 8, 3}, o) && ok;
        }
        return ok;
    }
    bool see(Out_& o) override { return seeOf(f.get(), o); }
    Out_ expected() override { Out_ o; const A keep(base); models::RelativeCarrierPhase m(keep.o1, keep.o2, made, keep.rec, keep.e2r, keep.Xi); seeOf(m, o); return o; }
};

struct ImuKind : Kind
{
    struct A { meas::ImuSample z0, z; Vec6 bias, R; };
    A base; std::unique_ptr<A> a; Box<models::ImuModel> f, g; Box<models::ImuModel> rest, rest2; bool done = false; int n = 0, splits = 0;
    const char* name() override { return "inertial"; }
    std::vector<std::string> args() override { return {"first sample", "last sample", "bias", "noise"}; }
    std::vector<std::string> specials() override { return {"integrate", "finish", "split, keep the first", "split, keep the second"}; }
    int variants() override { return 2; }
    static meas::ImuSample sample(int i) { meas::ImuSample s; s.t = T0 + i * 0.02; s.accel = Vec3(0.3 - i, 0.1 * i, -9.5); s.gyro = Vec3(0.2, -0.3 * i, 0.7); return s; }
    void fresh(int v) override
    {
        base.z0 = sample(0); base.bias << 0.1, -0.2, 0.3, 0.01, 0.02, -0.03; base.R << 1e-2, 2e-2, 3e-2, 4e-3, 5e-3, 6e-3; if (v) { base.bias.setZero(); base.R.setConstant(1e-4); }
        a.reset(new A(base)); n = 0; done = false; splits = 0;
        f.take([&](void* p) { new (p) models::ImuModel(a->z0, a->bias, a->R); });
        g.take([&](void* p) { new (p) models::ImuModel(base.z0, base.bias, base.R); });
        for (int k = 0; k < 2; ++k) special(0);
    }
    void scribble(int i) override { if (i == 0) a->z0 = sample(40); else if (i == 1) a->z = sample(50); else if (i == 2) a->bias.setConstant(0.5); else a->R.setConstant(3); }
    void kill() override { memset((void*)a.get(), 0x11, sizeof(A)); new (a.get()) A; a->bias.setConstant(1e9); a->R.setConstant(1e9); a->z0.setZero(); a->z.setZero(); }
    void copy(int h) override
    {
        if (h == 2)   // the copy goes its own way
        {
            Box<models::ImuModel> c;
            c.take([&](void* p) { new (p) models::ImuModel((const models::ImuModel&)f.get()); });
            c.get().integrate(sample(70));
            c.get().finished();
        }
        else f.copy(h);
    }
    bool special(int i) override
    {
        if (i == 0) { ++n; a->z = sample(n); f.get().integrate(a->z); g.get().integrate(sample(n)); done = false; return true; }
        if (i == 1) { if (f.get().numUpdates() < 1) return false; f.get().finished(); g.get().finished(); done = true; return true; }
        if (splits || f.get().numUpdates() < 1) return false;
        ++splits;
        const UTCTime t = f.get().t0() + 0.013;
        rest.take([&](void* p) { new (p) models::ImuModel(f.get().split(t)); });
        rest2.take([&](void* p) { new (p) models::ImuModel(g.get().split(t)); });
        if (i == 3)
        {
            f.take([&](void* p) { new (p) models::ImuModel((const models::ImuModel&)rest.get()); });
            g.take([&](void* p) { new (p) models::ImuModel((const models::ImuModel&)rest2.get()); });
        }
        rest.drop(); rest2.drop();
        if (i == 2) n = 1;   // it ends before the second sample
        done = false;
        return true;
    }
    bool seeOf(models::ImuModel& m, Out_& o)
    {
        bool ok = true;
        if (done) for (int k = 0; k < 2; ++k)
        {
            const DQ p1(rots(3, true)[2 + k], Vec3(4 * k, -2, 1)), p2(rots(3, true)[3], Vec3(5, k, 1));
            const Vec3 v1(1, k, -2), v2(0.5, 0.25, k); Vec6 b; b << 0.1 * k, 0, 0.2, 0, -0.01, 0.02;
            ok = look(m, {p1.data(), p2.data(), v1.data(), v2.data(), b.data()}, 9, {8, 8, 3, 3, 6}, o) && ok;
        }
        DQ e; Vec3 v; m.computeEndState(DQ(rots(3, true)[5], Vec3(1, 2, 3)), Vec3(4, 5, 6), Out<DQ>(e), Out<Vec3>(v));
        o.insert(o.end(), e.data(), e.data() + 8); o.insert(o.end(), v.data(), v.data() + 3);
        o.insert(o.end(), m.covariance().data(), m.covariance().data() + 81);
        o.insert(o.end(), m.dStatedBias().data(), m.dStatedBias().data() + 54);
        o.push_back(m.numUpdates()); o.push_back(m.delta_t());
        return ok;
    }
    bool see(Out_& o) override { return seeOf(f.get(), o); }
    Out_ expected() override { Out_ o; seeOf(g.get(), o); return o; }
};

static void histories(Kind& k, int len)
{
    const auto A = k.args(), S = k.specials();
    const int nA = A.size(), nS = S.size(), N = nA + 4 + nS;
    for (int v = 0; v < k.variants(); ++v)
        for (int n = 1; n <= len; ++n)
            words(N, n, [&](const std::vector<int>& w) {
                std::string said = std::string(k.name()) + str(" factor %d: built; ", v);
                ctxs(said);
                k.fresh(v);
                trace();
                bool killed = false;
                uint64_t h = mix(hstr(k.name()), v);
                for (size_t i = 0; i <= w.size(); ++i)
                {
                    if (i)
                    {
                        const int op = w[i - 1];
                        bool could = true;
                        if (op < nA) { if (killed) could = false; else { k.scribble(op); said += A[op] + " changed; "; } }
                        else if (op == nA) { k.kill(); killed = true; said += "all it was built from is gone; "; }
                        else if (op < nA + 4) { static const char* H[3] = {"copied, the original gone", "moved", "a copy made and thrown away"}; k.copy(op - nA - 1); said += std::string(H[op - nA - 1]) + "; "; }
                        else { could = k.special(op - nA - 4); said += S[op - nA - 4] + "; "; }
                        if (!could) return;
                        ctxs(said);
                        transition();
                        h = mix(h, op);
                        if (i < w.size()) continue;   // shorter words have been looked at already
                    }
                    else if (w.size() > 1) continue;
                    Out_ got;
                    const bool same = k.see(got);
                    const Out_ want = k.expected();
                    VH_EXPECT(same, "evaluation-pure", "%s the residual or a Jacobian depends on what else is asked for or on the memory it is written to", said.c_str());
                    double worst = got.size() == want.size() ? 0 : INFINITY;
                    size_t at = 0;
                    for (size_t j = 0; j < got.size() && j < want.size(); ++j)
                    {
                        const double d = got[j] == want[j] ? 0 : std::fabs(got[j] - want[j]) / (k.tol() > 0 ? 1 : 1e-10 * (1 + std::fabs(want[j])));
                        if (!(d <= worst)) { worst = d == d ? d : INFINITY; at = j; }
                    }
                    const double lim = k.tol() > 0 ? 5e-2 : 1;
                    VH_EXPECT(worst <= lim, "keeps-what-it-was-built-from", "%s number %zu of what it says is %.12g, was %.12g", said.c_str(), at, at < got.size() ? got[at] : NAN, at < want.size() ? want[at] : NAN);
                    outcome(hbytes(got.data(), 8 * got.size()));
                    state(h);
                    if (w.size() > 1) nontrivial(h);
                }
            });
}

int main()
{
    init();
    const int len = thorough() ? 5 : 4;
    { PoseKind k; histories(k, len); }
    { ClockKind k; histories(k, len); }
    { RangeKind k; histories(k, len - 1); }
    { PhaseKind k; histories(k, len - 1); }
    { ImuKind k; histories(k, len - 1); }
    return finish();
}
