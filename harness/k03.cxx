// K03: after any sequence of measurements, in any order of arrival, the estimator holds what processing them in order of
// time gives. Real estimator and real generated filter; the process and measurement models are stand-ins that do not commute.
#include "vh.h"
#include <algorithm>
#include <memory>
#include "core/ekf/rtk_ekf_estimator.h"
using namespace mc;
using namespace mc::ekf;
using namespace vh;

using ObsLog = std::map<int, uint64_t>;  // bundle -> what the measurement model was evaluated on last
static ObsLog* obs_log;

static uint64_t hx(const State& x)
{
    uint64_t h = mix(x.num_sd, (uint64_t)x.t.sec * 1000000007ull + x.t.nsec);
    auto add = [&](const auto& v) { for (int i = 0; i < v.size(); ++i) { double d = v.data()[i] + 0.0; h = hbytes(&d, 8, h); } };
    add(Eigen::Map<const Eigen::Matrix<double, 8, 1>>(x.pose.data())); add(x.vel); add(x.acc_bias); add(x.gyro_bias); add(x.gps_clk); add(x.gal_clk); add(x.glo_clk); add(x.p_b2g); add(Eigen::Map<const Eigen::Matrix<double, 8, 1>>(x.T_I2e.data()));
    for (size_t i = 0; i < x.num_sd; ++i) add(x.sd[i]);
    return h;
}
static uint64_t hm(const Eigen::MatrixXd& m, uint64_t h)
{
    for (int i = 0; i < m.size(); ++i) { double d = m.data()[i] + 0.0; h = hbytes(&d, 8, h); }
    return h;
}
static uint64_t hsnap(const Snapshot& s) { return hm(s.cov.dense(s.x.num_sd), hm(s.u.dense(), hx(s.x))); }

namespace mc { namespace ekf {
ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
{
    dxdx->setZero(); dxdu->setZero();
    dxdx->dPose_dVel.bottomRows<3>().setIdentity();
    dxdx->dVel_dAccBias = -Mat3::Identity();
    dxdx->dPose_dGyroBias.topRows<3>() = -Mat3::Identity() * (1 + 0.1 * x.vel(0));
    dxdx->dGpsClk_dGpsClk(0, 1) = 1; dxdx->dGalClk_dGalClk(0, 1) = 1; dxdx->dGloClk_dGloClk(0, 1) = 1;
    dxdu->dPose_dGyro.topRows<3>().setIdentity(); dxdu->dVel_dAccel.setIdentity();
    ErrorState d = ErrorState::Zero();
    d.pose.head<3>() = u.gyro - x.gyro_bias;
    d.pose.tail<3>() = x.vel;
    d.vel = u.accel - x.acc_bias - 0.3 * x.vel.norm() * x.vel;
    d.gps_clk << x.gps_clk(1), u.accel(0);
    return d;
}
ErrorState errorStateDynamics(const ErrorState&, const State&, const Input&, const Input&) { return ErrorState::Zero(); }
template <>
pointPosMeas::Residual h<pointPosMeas>(const pointPosMeas::ZType& z, const State& x, pointPosMeas::Jac* jac, const Input& u)
{
    jac->setZero();
    jac->dPose.bottomRightCorner<3, 3>() = -Mat3::Identity() * (1 + 0.01 * u.gyro(0));
    jac->dVel.bottomRows<3>() = -Mat3::Identity();
    jac->dPB2g.topRows<3>() = -Mat3::Identity();
    Vec6 r = z;
    r.head<3>() -= x.vel * 0.5 + x.p_b2g + 0.1 * u.gyro;
    r.tail<3>() -= x.vel + 0.2 * x.acc_bias + 0.1 * u.accel;
    return r;
}
template <>
obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z, const State& x, obsMeas::Jac* jac, const Input& u)
{
    jac->setZero();
    uint64_t v = hm(u.dense(), hx(x));
    for (auto& o : z)
    {
        v = mix(v, o.gnss_id);
        v = hbytes(o.z.data(), 16, v); v = hbytes(o.sat.state.pos.data(), 24, v); v = hbytes(o.sat.state.vel.data(), 24, v); v = hbytes(o.sat.state.clk.data(), 16, v);
        v = hbytes(&o.sat.sagnac, 8, v); v = hbytes(&o.sat.atm.ionospheric_delay_m, 8, v); v = hbytes(&o.sat.atm.tropospheric_delay_m, 8, v);
        v = mix(v, (uint64_t)o.sat.state.t.sec * 1000000007ull + o.sat.state.t.nsec);
    }
    (*obs_log)[z.empty() ? -1 : (int)z[0].z(1)] = v;
    return obsMeas::Residual::Zero();
}
template <>
fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z, const State& x, fixAndHoldMeas::Jac* jac)
{
    jac->setZero();
    int n = x.num_sd;
    jac->dSd_all(n, n).diagonal().setConstant(-1.0);
    if (n > 1) jac->dSd_all(n, n)(0, 1) = -0.3 * x.sd[1](0);
    fixAndHoldMeas::Residual r = fixAndHoldMeas::Residual::Zero();
    for (int i = 0; i < n; ++i) r[i] = (z[i] - x.sd[i])[0] * (1 + 0.1 * x.vel(1));
    return r;
}
} }

// ---- what is fed
enum { IMU, OBS, POS, FIX, BADOBS, MANYOBS, FULLOBS, NOOBS };
static const char* KN[] = {"imu", "obs", "pos", "fix", "unknown-satellite", "31-obs", "30-obs", "0-obs"};
static bool is_obs(int k) { return k == 1 || k == 6 || k == 7; }
struct M { int kind; int64_t us; int id; };
static UTCTime tim(int64_t us) { UTCTime t(1600000000 + us / 1000000, (us % 1000000) * 1000); while (t.nsec < 0) { t.nsec += 1000000000; --t.sec; } return t; }

static ephemeris::GPSEphemeris gps_eph; static ephemeris::GalileoEphemeris gal_eph;
template <class E> static E mkeph(int sys, int num, double m0)
{
    E e(num);
    e.gnssID = sys; e.sat = num;
    e.toe = tim(0); e.toc = tim(0); e.toes = (uint32_t)tim(0).GpsTow();
    e.sqrta = sys == GnssID::GPS ? 5153.7 : 5440.6; e.ecc = 0.01; e.m0 = m0; e.delta_n = 4e-9; e.omega0 = 1.0; e.i0 = 0.96; e.w = 0.5;
    e.omegadot = -8e-9; e.idot = 1e-10; e.af0 = 1e-5; e.af1 = 1e-12; e.af2 = 0; e.cuc = 1e-6; e.cus = 2e-6; e.crc = 200; e.crs = 50; e.cic = 1e-7; e.cis = 2e-7;
    return e;
}
static Input imu_z(const M& m)
{
    Input u;
    u.accel = Vec3(0.3 + 0.17 * m.id, -0.2 * m.id, 9.7 + 0.05 * m.id); u.gyro = Vec3(0.02 * m.id, 0.1, -0.03 * m.id);
    return u;
}
static Vec6 pos_z(const M& m) { Vec6 z; for (int i = 0; i < 6; ++i) z(i) = 0.7 * m.id + 0.31 * i - 1; return z; }
static std::vector<Vec1> fix_z(const M& m) { return {Vec1(Vec1::Constant(0.4 * m.id)), Vec1(Vec1::Constant(1 - 0.3 * m.id))}; }
static std::vector<meas::GnssObservation> obs_z(const M& m)
{
    std::vector<meas::GnssObservation> v;
    auto add = [&](int sys, int num) { meas::GnssObservation o; o.setZero(); o.t = tim(m.us); o.gnss_id = sys; o.sat_num = num; o.pseudorange = 2e7 + m.id; o.doppler = 100 + m.id; v.push_back(o); };
    if (m.kind == NOOBS) return v;
    if (m.kind == MANYOBS || m.kind == FULLOBS) { for (int i = 0; i < (m.kind == FULLOBS ? 30 : 31); ++i) add(i % 2 ? GnssID::GPS : GnssID::Galileo, 5); return v; }
    if (m.id % 2) add(GnssID::GPS, 5);
    add(GnssID::Galileo, 5);
    if (m.kind == BADOBS) add(m.id % 2 ? GnssID::GPS : GnssID::Glonass, m.id % 2 ? 6 : 5);
    return v;
}
static pointPosMeas::Covariance Rp; static obsMeas::Covariance Ro; static fixAndHoldMeas::Covariance Rf; static InputCovariance Qu; static ProcessCovariance Qx;
static State x0; static Covariance P0;

static int add_real(RtkEkfEstimator& e, const M& m)
{
    UTCTime t = tim(m.us);
    switch (m.kind)
    {
    case IMU: { ImuMeas z; z.z = imu_z(m); return e.addMeasurement(t, z).ok(); }
    case POS: { pointPosMeas z; z.z = pos_z(m); return e.addMeasurement(t, z).ok(); }
    case FIX: { fixAndHoldMeas z; z.z = fix_z(m); return e.addMeasurement(t, z).ok(); }
    default: return e.addMeasurement(t, obs_z(m)).ok();
    }
}

// ---- reference: keeps the oldest state and every measurement after it, and starts over each time
struct Ref
{
    struct Live { M m; int at = 0; };
    Snapshot base;
    std::vector<Live> live;
    std::vector<std::unique_ptr<Snapshot>> st;
    int64_t newest = INT64_MIN;
    ObsLog log;
    size_t cap = 99;
    static bool after(const UTCTime& a, const UTCTime& b) { return (a - b).toSec() > TIME_QUANTIZATION / 2; }
    Snapshot& last() { return st.empty() ? base : *st.back(); }
    void push(const UTCTime& t, const Input& u)
    {
        auto n = std::make_unique<Snapshot>();
        predict(last(), t, u, Qx, Qu, make_out(*n));
        st.push_back(std::move(n));
    }
    void apply(const M& m)
    {
        UTCTime t = tim(m.us);
        if (m.kind == IMU) { if (after(t, last().x.t)) push(t, imu_z(m)); return; }
        if (after(t, last().x.t)) { Input u = last().u; push(t, u); }
        Snapshot& s = last();
        if (m.kind == POS) update<pointPosMeas>(make_out(s), pos_z(m), Rp, s.u);
        if (m.kind == FIX) update<fixAndHoldMeas>(make_out(s), fix_z(m), Rf);
        if (is_obs(m.kind))
        {
            auto o = obs_z(m);
            std::vector<satellite::SatelliteCache> c(o.size());
            obsMeas::ZType z;
            const Vec3 p = s.x.T_I2e.transformp(s.x.pose.transforma(s.x.p_b2g));
            for (size_t i = 0; i < o.size(); ++i)
            {
                satellite::Satellite<ephemeris::GPSEphemeris> g(GnssID::GPS, 5); satellite::Satellite<ephemeris::GalileoEphemeris> a(GnssID::Galileo, 5);
                g.addEph(gps_eph); a.addEph(gal_eph);
                if (o[i].gnss_id == GnssID::GPS) c[i].update(o[i].t, p, g); else c[i].update(o[i].t, p, a);
                z.push_back({Vec2(o[i].pseudorange, o[i].doppler), c[i], o[i].gnss_id});
            }
            ObsLog* keep = obs_log; obs_log = &log;
            update<obsMeas>(make_out(s), z, Ro, s.u);
            obs_log = keep;
        }
    }
    bool add(const M& m)
    {
        UTCTime t = tim(m.us);
        if (after(base.x.t, t)) return false;
        if (m.kind == BADOBS || m.kind == MANYOBS) return false;
        newest = std::max(newest, m.us);
        auto rank = [](int k) { return is_obs(k) ? (int)OBS : k; };
        auto less = [&](const M& a, const M& b) { return a.us != b.us ? a.us < b.us : rank(a.kind) < rank(b.kind); };
        auto it = live.begin();
        while (it != live.end() && !less(m, it->m)) ++it;
        bool at_base = it == live.begin();
        if (at_base && !after(t, base.x.t))
        {
            // nothing older is left to start from: goes on top of the oldest state
            st.clear();
            apply(m);
        }
        else live.insert(it, Live{m});
        st.clear();
        for (auto& l : live) { apply(l.m); l.at = st.size(); }
        // forget what is older than a second
        int drop = 0, n = st.size();
        auto at = [&](int i) -> Snapshot& { return i ? *st[i - 1] : base; };
        UTCTime start = tim(newest - 1000000);
        while (after(start, at(drop).x.t)) ++drop;
        while (n + 1 - drop > (int)cap) ++drop;
        if (drop)
        {
            Snapshot b = at(drop);
            base = b;
            st.erase(st.begin(), st.begin() + drop);
            live.erase(std::remove_if(live.begin(), live.end(), [&](const Live& l) { return l.at <= drop; }), live.end());
        }
        return true;
    }
    Ref() = default;
    Ref(const Ref& o) { *this = o; }
    Ref& operator=(const Ref& o)
    {
        base = o.base; live = o.live; newest = o.newest; log = o.log; cap = o.cap; st.clear();
        for (auto& s : o.st) st.push_back(std::make_unique<Snapshot>(*s));
        return *this;
    }
};

struct Node { RtkEkfEstimator e; ObsLog log; Ref r; };
static void start(RtkEkfEstimator& e, int64_t us)
{
    e.init(tim(us), x0, P0, Rp, Ro, Rf, Qu, Qx);
    e.ephCb(gps_eph); e.ephCb(gal_eph);
}
static void fresh(Node& n)
{
    start(n.e, 0);
    n.r.base.x = x0; n.r.base.x.t = tim(0); n.r.base.cov = P0;
    n.r.base.u.accel = -GRAVITY; n.r.base.u.gyro.setZero();
}
static std::string mstr(const M& m) { return str("%s@%gms", KN[m.kind], m.us / 1000.0); }
// one transition and its comparison
static void feed(Node& n, const M& m)
{
    obs_log = &n.log;
    bool a = add_real(n.e, m), b = n.r.add(m);
    transition();
    VH_EXPECT(a == b, b ? "a measurement of the last second is accepted" : m.kind == BADOBS ? "an observation of an unknown satellite is refused" :
              m.kind == MANYOBS ? "more observations than fit are refused" : "a measurement older than the oldest state is refused", "accepted %d", a);
    Snapshot& s = n.r.last();
    VH_EXPECT((const UTCTime&)n.e.t() == (const UTCTime&)s.x.t, "the estimate is for the time of the newest measurement", "%.9f for %.9f", (n.e.t() - tim(0)).toSec(), ((const UTCTime&)s.x.t - tim(0)).toSec());
    VH_EXPECT(hx(n.e.x()) == hx(s.x), "the estimate is that of processing the measurements in order of time", "vel %.9g %.9g", n.e.x().vel(0), s.x.vel(0));
    uint64_t h = hsnap(n.e.snap());
    VH_EXPECT(h == hsnap(s), "the covariance and input are those of processing the measurements in order of time", "P %.12g %.12g", n.e.cov().vel_vel(0, 0), s.cov.vel_vel(0, 0));
    for (auto& l : n.r.log) VH_EXPECT(n.log.count(l.first) && n.log[l.first] == l.second, "observations are evaluated against the state and satellites of their time", "bundle %d", l.first);
    VH_EXPECT(n.log.size() == n.r.log.size(), "observations are evaluated against the state and satellites of their time", "%zu for %zu", n.log.size(), n.r.log.size());
    state(mix(h, n.r.live.size()));
    nontrivial(h);
}
static std::vector<std::unique_ptr<Node>> stack_;
static std::string path_str(const std::vector<M>& p) { std::string s; for (auto& m : p) s += " " + mstr(m); return s; }
static void dfs(const std::vector<M>& alpha, std::vector<M>& path, int depth, const std::function<bool(const std::vector<M>&)>& keep, uint64_t& leaf)
{
    for (auto& a : alpha)
    {
        M m = a; m.id = path.size() + 1;
        path.push_back(m);
        if (keep(path) && (path.size() != 2 || mine(leaf++)))
        {
            Node &p = *stack_[path.size() - 1], &c = *stack_[path.size()];
            ctxs("arrivals:" + path_str(path));
            c.e = p.e; c.log = p.log; c.r = p.r;
            if (path.size() >= 2 || first() ) feed(c, m); else { obs_log = &c.log; add_real(c.e, m); c.r.add(m); }
            trace();
            if ((int)path.size() < depth) dfs(alpha, path, depth, keep, leaf);
        }
        path.pop_back();
    }
}
static void explore(const std::vector<M>& alpha, int depth, const std::function<bool(const std::vector<M>&)>& keep = [](const std::vector<M>&) { return true; })
{
    stack_.clear();
    for (int i = 0; i <= depth; ++i) stack_.push_back(std::make_unique<Node>());
    fresh(*stack_[0]);
    std::vector<M> path; uint64_t leaf = 0;
    dfs(alpha, path, depth, keep, leaf);
}
int main()
{
    freopen("/dev/null", "w", stdout);
    init();
    gps_eph = mkeph<ephemeris::GPSEphemeris>(GnssID::GPS, 5, 0.3); gal_eph = mkeph<ephemeris::GalileoEphemeris>(GnssID::Galileo, 5, 1.1);
    x0 = State::Identity(); x0.num_sd = 2; x0.sd[0].setConstant(0.2); x0.sd[1].setConstant(-0.1);
    x0.T_I2e = math::DQuat<double>(math::Quat<double>::Identity(), Vec3(-1798904, -4532227, 4099781));
    x0.t = tim(0);
    P0 = Covariance::Identity();
    Rp = Vec6::Constant(0.3); Ro = Vec2::Ones(); Rf = Vec1::Constant(0.2);
    Qu = InputCovariance::Zero(); Qu.accel.setConstant(0.01); Qu.gyro.setConstant(0.02); Qx = ProcessCovariance::Identity();
    int N = thorough() ? 5 : 4;

    // every order of arrival, with ties of time and jitter below the time quantum, including around the initial state
    {
        std::vector<M> a;
        for (int64_t us : {300000, 100000, 200000, 300020}) for (int k : {IMU, POS, FIX, OBS}) a.push_back({k, us, 0});
        a.push_back({POS, -20, 0}); a.push_back({FIX, 0, 0});
        explore(a, N);
        a.clear();
        for (int64_t us : {300000, 100000, 300020}) for (int k : {IMU, POS, FIX}) a.push_back({k, us, 0});
        a.push_back({OBS, 300000, 0});
        explore(a, N + 1);
    }
    // all orders of one long mixed history
    {
        std::vector<M> a{{IMU, 100000, 0}, {POS, 100000, 0}, {FIX, 100000, 0}, {IMU, 200000, 0}, {OBS, 200000, 0}, {POS, 200030, 0}, {IMU, 300000, 0}};
        if (thorough()) { a.push_back({FIX, 250000, 0}); }
        explore(a, a.size(), [](const std::vector<M>& p) { for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i].kind == p.back().kind && p[i].us == p.back().us) return false; return true; });
    }
    // the window of one second: what is dropped and what is refused
    {
        std::vector<M> a;
        for (int64_t us : {400000, 900000, 1400000, 1900000, 2410000}) for (int k : {IMU, POS, OBS}) a.push_back({k, us, 0});
        a.push_back({BADOBS, 500000, 0}); a.push_back({MANYOBS, 1000000, 0}); a.push_back({FIX, 1400000, 0}); a.push_back({FULLOBS, 1400000, 0}); a.push_back({NOOBS, 1900000, 0});
        explore(a, N);
    }
    // more states than the buffer holds, then one late measurement at every place
    for (int64_t step : {5000, 20000})
    {
        stack_.clear();
        Node base; fresh(base);
        int n = 0;
        for (int64_t us = step; us <= 120 * step; us += step) { M m{IMU, us, ++n}; ctx("imu every %ld us, number %d", (long)step, n); if (n < 95 || first()) feed(base, m); else { obs_log = &base.log; add_real(base.e, m); base.r.add(m); } }
        uint64_t c = 0;
        for (int64_t us = 0; us <= 122 * step; us += step / 2)
            for (int k : {IMU, POS, FIX, OBS})
                if (mine(c++))
                {
                    auto t = std::make_unique<Node>();
                    t->e = base.e; t->log = base.log; t->r = base.r;
                    ctx("120 imu every %ld us, then %s", (long)step, mstr(M{k, us, 3}).c_str());
                    feed(*t, M{k, us, 3});
                    ctx("120 imu every %ld us, then %s and imu", (long)step, mstr(M{k, us, 3}).c_str());
                    feed(*t, M{IMU, 123 * step, 7});
                    ctx("120 imu every %ld us, then %s, imu and pos", (long)step, mstr(M{k, us, 3}).c_str());
                    feed(*t, M{POS, us + step, 4});
                    trace();
                }
    }
    // an estimator initialised again behaves like a new one
    {
        uint64_t c = 0;
        std::vector<M> a{{IMU, 300000, 1}, {POS, 300000, 2}, {OBS, 100000, 3}, {IMU, 2500000, 4}};
        for (auto& p : a) for (auto& q : a) for (auto& r : a) for (auto& r2 : a) for (int64_t back : {0, 100000, 2600000})
            if (mine(c++))
            {
                auto n = std::make_unique<Node>(), f = std::make_unique<Node>();
                fresh(*n); obs_log = &n->log; add_real(n->e, p); add_real(n->e, q);
                start(n->e, back); start(f->e, back);
                ctxs("used with" + path_str({p, q}) + str(", initialised again at %ldms, then", (long)back / 1000) + path_str({r, r2}));
                obs_log = &n->log; bool x = add_real(n->e, r); x = add_real(n->e, r2) && x;
                obs_log = &f->log; bool y = add_real(f->e, r); y = add_real(f->e, r2) && y;
                transition(2);
                VH_EXPECT(x == y && (const UTCTime&)n->e.t() == (const UTCTime&)f->e.t() && hsnap(n->e.snap()) == hsnap(f->e.snap()), "an estimator initialised again starts afresh", "%d %d", x, y);
                trace();
            }
    }
    finish();
}
