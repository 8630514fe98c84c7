// L03: the stream header describes exactly the bytes of the stream. Every loggable type is written as a field of several streams;
// the value of every leaf is noted and later compared with what the Python reader (log_reader.py) and the C++ reader return.
#include "vh.h"
#include <fstream>
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
using namespace mc;
using namespace mc::logging;
using namespace vh;
namespace fs = std::experimental::filesystem;
static std::string DIR;

// --- leaf visitor: V(path, scalar&) ---
template <typename T> struct is_scalar : std::is_arithmetic<T> {};
template <typename V, typename T> void scal(V& v, const std::string& p, T& x) { v(p, x); }
template <typename V, typename M> void matr(V& v, const std::string& p, M& m)
{
    for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < m.cols(); ++c) v(p + str("[%d,%d]", r, c), m(r, c));
}
template <typename V> void visit(V& v, const std::string& p, UTCTime& t) { v(p + ".sec", t.sec); v.nsec(p + ".nsec", t.nsec); }
template <typename V> void visit(V& v, const std::string& p, meas::ImuSample& x) { visit(v, p + ".t", x.t); matr(v, p + ".accel", x.accel); matr(v, p + ".gyro", x.gyro); }
#define L(n) v(p + "." #n, x.n);
template <typename V> void visit(V& v, const std::string& p, meas::GnssObservation& x)
{
    visit(v, p + ".t", x.t);
    L(gnss_id) L(sat_num) L(freq) L(pseudorange) L(doppler) L(carrier_phase)
}
template <typename V, typename E> void kepler(V& v, const std::string& p, E& x)
{
    v(p + ".gnss_id", x.gnssID); L(sat) visit(v, p + ".toe", x.toe); visit(v, p + ".toc", x.toc);
    L(tow) L(iodc) L(iode) L(week) L(toes) L(tocs) L(af2) L(af1) L(af0) L(m0) L(delta_n) L(ecc) L(sqrta) L(omega0) L(i0) L(w)
    L(omegadot) L(idot) L(cuc) L(cus) L(crc) L(crs) L(cic) L(cis)
}
template <typename V> void visit(V& v, const std::string& p, ephemeris::GPSEphemeris& x)
{
    kepler(v, p, x);
    L(health) L(alert_flag) L(anti_spoof) L(code_on_L2) L(ura) L(L2_P_data_flag) L(fit_interval_flag) L(age_of_data_offset) L(tgd)
}
template <typename V> void visit(V& v, const std::string& p, ephemeris::GalileoEphemeris& x)
{
    kepler(v, p, x);
    L(ai0) L(ai1) L(ai2) L(bgd_e1_e5a) L(bgd_e1_e5b) L(e5b_hs) L(e1b_hs) L(e5b_dvs) L(e1b_dvs)
}
template <typename V> void visit(V& v, const std::string& p, ephemeris::GlonassEphemeris& x)
{
    v(p + ".gnss_id", x.gnssID); L(sat) visit(v, p + ".toe", x.toe);
    L(iode) L(slot) L(svh) L(sva) L(age) visit(v, p + ".tof", x.tof);
    matr(v, p + ".pos", x.pos); matr(v, p + ".vel", x.vel); matr(v, p + ".acc", x.acc);
    L(taun) L(gamn) L(dtaun)
}
template <typename V> void visit(V& v, const std::string& p, math::Quat<double>& q) { v(p + ".w", q.w()); v(p + ".x", q.x()); v(p + ".y", q.y()); v(p + ".z", q.z()); }
template <typename V> void visit(V& v, const std::string& p, math::DQuat<double>& d)
{
    if (v.writing)
    {
        math::Quat<double> q; Vec3 t;
        v.quat(q); matr(v, "", t);
        d = math::DQuat<double>(q, t);
    }
    else
    {
        math::Quat<double> q(d.real()); Vec3 t = d.translation();
        v.loose = true; visit(v, p + ".rot", q); matr(v, p + ".trans", t); v.loose = false;
    }
}
template <typename V> void tang(V& v, const std::string& p, math::DQuat<double>::TangentVector& x)
{
    for (int i = 0; i < 6; ++i) v(p + str(".%s[%d,0]", i < 3 ? "angular" : "linear", i % 3), x(i));
}
template <typename V> void visit(V& v, const std::string& p, math::Jet<double>& j) { visit(v, p + ".x", j.x); tang(v, p + ".dx", j.dx); }
template <typename V> void visit(V& v, const std::string& p, math::TwoJet<double>& j) { visit(v, p + ".x", j.x); tang(v, p + ".dx", j.dx); tang(v, p + ".d2x", j.d2x); }
template <typename V, typename T, std::enable_if_t<is_scalar<T>::value, int> = 0> void visit(V& v, const std::string& p, T& x) { v(p, x); }
template <typename V, typename T, int R, int C> void visit(V& v, const std::string& p, Eigen::Matrix<T, R, C>& m) { matr(v, p, m); }
template <typename V, typename T, int C> void visit(V& v, const std::string& p, Eigen::Matrix<T, 1, C, Eigen::RowMajor>& m) { matr(v, p, m); }

struct Fill
{
    bool writing = true, loose = false;
    uint64_t n; int pat;
    template <typename T> void operator()(const std::string&, T& x)
    {
        ++n;
        if (pat == 1) { x = std::is_floating_point<T>::value ? (n % 2 ? std::numeric_limits<T>::max() : -std::numeric_limits<T>::denorm_min()) : (n % 2 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()); return; }
        if (std::is_floating_point<T>::value) x = (T)(n + 0.0625 * (n % 7)) * (n % 3 ? 1 : -1);
        else { uint64_t z = mix(5, n); memcpy(&x, &z, sizeof x); }
    }
    void nsec(const std::string&, int64_t& x) { ++n; x = pat == 1 ? 999999999 : (int64_t)(mix(3, n) % 1000000000); }
    void quat(math::Quat<double>& q)
    {
        ++n;
        static const double Q[4][4] = {{0.5, -0.5, 0.5, 0.5}, {0.8, 0, 0.6, 0}, {0, 1, 0, 0}, {0.1, 0.7, -0.1, 0.7}};
        for (int i = 0; i < 4; ++i) q.arr_(i) = Q[n % 4][i];
    }
};
struct Note
{
    bool writing = false, loose = false;
    std::vector<std::pair<std::string, std::string>> out;
    std::vector<double> val; std::vector<bool> lo;
    template <typename T> void operator()(const std::string& p, T& x)
    {
        std::string h = loose ? "~" : "";
        const unsigned char* c = (const unsigned char*)&x;
        for (size_t i = 0; i < sizeof x; ++i) h += str("%02x", c[i]);
        h += std::is_floating_point<T>::value ? "/f" : std::is_signed<T>::value ? "/i" : "/u";
        out.push_back({p, h}); val.push_back((double)x); lo.push_back(loose);
    }
    void nsec(const std::string& p, int64_t& x) { (*this)(p, x); }
    void quat(math::Quat<double>&) {}
};
static bool same(const Note& a, const Note& b, std::string& where)
{
    if (a.out.size() != b.out.size()) { where = "size"; return false; }
    for (size_t i = 0; i < a.out.size(); ++i)
    {
        bool ok = a.lo[i] ? std::fabs(a.val[i] - b.val[i]) <= 1e-9 * (1 + std::fabs(a.val[i])) || (std::isinf(a.val[i]) || std::fabs(a.val[i]) > 1e300) : a.out[i].second == b.out[i].second;
        if (!ok) { where = a.out[i].first; return false; }
    }
    return true;
}

template <typename T> T make(uint64_t seed, int pat) { T x{}; Fill f; f.n = seed * 131; f.pat = pat; visit(f, "", x); return x; }
template <typename T> bool has_dq() { return std::is_same<T, math::DQuat<double>>::value || std::is_same<T, math::Jet<double>>::value || std::is_same<T, math::TwoJet<double>>::value; }

template <typename A, typename B> constexpr bool B_succ() { return !std::is_same<B, uint8_t>::value && !std::is_same<B, math::Jet<double>>::value; }
static FILE* J;
static bool jfirst = true;
template <typename A, typename B> void pair_case(int key, const std::string& root, Logger& lg, std::vector<std::function<void()>>& later, const char* an, const char* bn)
{
    ctx("stream %d of %s and %s", key, an, bn);
    lg.initStream<A, B>(key, {"a", "b"});
    int nrec = B_succ<A, B>() ? 3 : key % 4;
    std::vector<Note> notes;
    std::vector<UTCTime> st;
    for (int r = 0; r < nrec; ++r)
    {
        int pa = r == 1 && !has_dq<A>(), pb = r == 1 && !has_dq<B>();
        A a = make<A>(key * 8 + r, pa); B b = make<B>(key * 8 + r + 4, pb);
        UTCTime t(1500000000 + r, key + r);
        lg.log(key, t, a, b);
        Note n; visit(n, "t", t); visit(n, "a", a); visit(n, "b", b);
        notes.push_back(n); st.push_back(t);
        transition(2);
        for (auto& o : n.out) nontrivial(mix(hstr(o.first), hstr(o.second)));
        eval(n.out.size());
    }
    state(mix(hstr(an), hstr(bn)));
    fprintf(J, "%s\"%d\":{\"types\":\"%s,%s\",\"records\":[", jfirst ? "" : ",", key, an, bn);
    jfirst = false;
    for (int r = 0; r < nrec; ++r)
    {
        fprintf(J, "%s{", r ? "," : "");
        for (size_t i = 0; i < notes[r].out.size(); ++i) fprintf(J, "%s\"%s\":\"%s\"", i ? "," : "", notes[r].out[i].first.c_str(), notes[r].out[i].second.c_str());
        fprintf(J, "}");
    }
    fprintf(J, "]}");
    later.push_back([=]() {
        ctx("read back stream %d of %s and %s", key, an, bn);
        StreamReader rd(root + "/" + logKeyName(key) + ".log");
        VH_EXPECT(rd.numRecords() == nrec, "number of records in the header", "%d for %d", rd.numRecords(), nrec);
        VH_EXPECT(rd.key() == key, "key in the header", "%d", rd.key());
        for (int r = 0; r < nrec; ++r)
        {
            UTCTime t = rd.nextStamp();
            A a = make<A>(0, 0); B b = make<B>(0, 0);
            rd.get(a, b);
            Note n; visit(n, "t", t); visit(n, "a", a); visit(n, "b", b);
            std::string where;
            if (!same(notes[r], n, where)) violation(str("C++ round trip of %s or %s", an, bn), str("record %d leaf %s @ ", r, where.c_str()) + g().sh->ctx);
        }
        VH_EXPECT(rd.done(), "the C++ reader is done after the last record", "-");
        trace();
    });
}

typedef Eigen::Matrix<double, 1, 4> Row4;
typedef Eigen::Matrix<double, 2, 3> M23;
typedef Eigen::Matrix<int32_t, 3, 2> M32i;
typedef Eigen::Matrix<float, 3, 3> M33f;
typedef Eigen::Matrix<double, 1, 1> M11;
template <int I, typename... T> struct nth { using type = typename std::tuple_element<I, std::tuple<T...>>::type; };
#define TYPES double, float, int64_t, int32_t, int16_t, int8_t, uint64_t, uint32_t, uint16_t, uint8_t, Vec3, Vec3f, Row4, M23, M32i, M33f, M11, UTCTime, \
              meas::ImuSample, meas::GnssObservation, ephemeris::GPSEphemeris, ephemeris::GalileoEphemeris, ephemeris::GlonassEphemeris, \
              math::Quat<double>, math::DQuat<double>, math::Jet<double>, math::TwoJet<double>
static const char* NAME[] = {"double", "float", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "Vec3", "Vec3f", "Row4", "M23", "M32i", "M33f", "M11",
                             "UTCTime", "ImuSample", "GnssObservation", "GPSEphemeris", "GalileoEphemeris", "GlonassEphemeris", "Quat", "DQuat", "Jet", "TwoJet"};
constexpr int NT = 27;

template <int A, int B> struct Loop
{
    static void go(const std::string& root, Logger& lg, std::vector<std::function<void()>>& later)
    {
        constexpr int k = A * NT + B;
        // every type before its successor in the list, before a byte, before a row matrix and before a Jet
        if constexpr (B == (A + 1) % NT || B == 9 || B == 12 || B == 25) if (mine(k)) pair_case<typename nth<A, TYPES>::type, typename nth<B, TYPES>::type>(2000 + k * 4 + (A * 3 + B) % 4, root, lg, later, NAME[A], NAME[B]);
        if constexpr (B + 1 < NT) Loop<A, B + 1>::go(root, lg, later);
    }
};
template <int A> void row(const std::string& root, Logger& lg, std::vector<std::function<void()>>& later) { Loop<A, 0>::go(root, lg, later); }
template <size_t... I> void all_rows(std::index_sequence<I...>, const std::string& root, Logger& lg, std::vector<std::function<void()>>& later)
{
    int d[] = {(row<I>(root, lg, later), 0)...}; (void)d;
}

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/l03";
    fs::create_directories(DIR);
    J = fopen((DIR + "/expect.json").c_str(), "w");
    std::string root;
    std::vector<std::function<void()>> later;
    {
        Logger lg(UTCTime(1500000000, 0), DIR + "/lg");
        root = DIR + "/lg/" + lg.logId();
        fprintf(J, "{\"root\":\"%s\",\"streams\":{", root.c_str());
        all_rows(std::make_index_sequence<NT>(), root, lg, later);
        lg.close(UTCTime(1500000100, 0));
    }
    fprintf(J, "}}\n");
    fclose(J);
    for (auto& f : later) f();
    sample("a stream (t, a: Jet, b: GlonassEphemeris) of 0..3 records; leaf a.x.rot.w, b.pos[2,0], ...");
    finish();
}
