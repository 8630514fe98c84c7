// T01: UTCTime is an exact, totally ordered instant. Explicit-state BFS over operation sequences,
// every transition executed on the implementation and on an exact 128-bit nanosecond model.
#include "vh.h"
#include <deque>
#include "common/utctime.h"
using namespace mc;
using namespace vh;
typedef __int128 I;
static const I E9 = 1000000000;
static I val(const UTCTime& t) { return (I)t.sec * E9 + t.nsec; }
static I llr(double x)  // nearest integer nanosecond of a double number of seconds, exactly
{
    long double y = (long double)x * 1e9L;
    return (I)llroundl(y);
}
static std::string sh(const UTCTime& t) { return str("(%lld,%lld)", (long long)t.sec, (long long)t.nsec); }

static void cmp(const UTCTime& a, const UTCTime& b)
{
    I x = val(a), y = val(b);
    std::string d = sh(a) + " vs " + sh(b);
    expect((a < b) == (x < y), "operator<", d);
    expect((a > b) == (x > y), "operator>", d);
    expect((a <= b) == (x <= y), "operator<=", d);
    expect((a >= b) == (x >= y), "operator>=", d);
    expect((a == b) == (x == y), "operator==", d);
    expect((a != b) == (x != y), "operator!=", d);
    eval(6);
}

struct Op { int k; double d; int i; UTCTime u; std::string n; };

int main()
{
    init();
    std::vector<int64_t> secs = {0, 1, -1, -2, 315964818, 1564005746, 2147483646, 2147483648LL, -315964818, 4102444800LL};
    std::vector<int64_t> nss = {0, 1, 499999999, 500000000, 999999998, 999999999};
    std::vector<UTCTime> inits;
    for (auto s : secs) for (auto n : nss) inits.push_back(UTCTime(s, n));
    std::vector<Op> ops;
    for (double d : {0.0, 1e-9, 0.1, 0.5, 0.999999999, 1.0, 1.5, 3.6, 86400.25, 604799.75, 1e9 + 0.5, 4294967296.25, -1e-9, -0.1, -0.999999999, -1.5, -3.6, -86400.25, -1000000.5, -8000000.75, 1234567.125, -1234567.890625})
        for (int k : {0, 1}) ops.push_back({k, d, 0, UTCTime(), str("%s%g", k ? "-" : "+", d)});
    for (int i : {1, 59, 86400, -1, -604800, 2147483647, -2147483647}) for (int k : {2, 3}) ops.push_back({k, 0, i, UTCTime(), str("%s%d", k == 3 ? "-" : "+", i)});
    for (auto u : {UTCTime((int64_t)0, (int64_t)1), UTCTime((int64_t)3, (int64_t)600000000), UTCTime((int64_t)604800, (int64_t)999999999), UTCTime((int64_t)-1, (int64_t)500000000)})
        for (int k : {4, 5}) ops.push_back({k, 0, 0, u, std::string(k == 5 ? "-" : "+") + sh(u)});

    // construction: every (sec, nsec) pair incl. carries and negative nanoseconds, and seconds as double
    if (first())
    {
        alignas(UTCTime) unsigned char raw[sizeof(UTCTime)];
        memset(raw, 0x5a, sizeof raw);
        UTCTime* z = new (raw) UTCTime;
        ctx("UTCTime()");
        expect(val(*z) == 0 && z->nsec == 0, "the default time is zero", sh(*z));
        for (auto s : secs)
            for (int64_t n : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)999999999, (int64_t)1000000000, (int64_t)1000000001, (int64_t)-999999999,
                              (int64_t)-1000000000, (int64_t)-1000000001, (int64_t)2500000000LL, (int64_t)-2500000000LL})
            {
                UTCTime t(s, n);
                ctx("UTCTime(%lld,%lld)", (long long)s, (long long)n);
                expect(val(t) == (I)s * E9 + n, "construct(sec,nsec) value", sh(t));
                expect(t.nsec >= 0 && t.nsec < E9, "construct(sec,nsec) normalised", sh(t));
                transition();
            }
        for (double d : {0., .1, .5, .999999999, 1., 1.25, 12345.6789, 1564005746.5, -1e-9, -.1, -.5, -1., -1.25, -1.5, -2., -12345.6789})
        {
            UTCTime t(d);
            ctx("UTCTime(%.12g)", d);
            I e = val(t) - llr(d);
            expect(e >= -300 && e <= 300 && (fabs(d) > 1e7 || (e >= -2 && e <= 2)), "construct(double) value", sh(t));
            expect(t.nsec >= 0 && t.nsec < E9, "construct(double) normalised", sh(t));
            transition();
            for (double c : {-12345.6789, -2., -1.75, -1.5, -1.25, -1., -.5, -.1, 0., .1, .5, 1., 1.25, 1.5, 2., 12345.6789})
            {
                UTCTime u(c);
                expect((t < u) == (d < c) && (t > u) == (d > c) && (t <= u) == (d <= c) && (t >= u) == (d >= c), "order of times made from seconds", str("%g vs %g", d, c));
            }
        }
    }

    int depth = thorough() ? 5 : 3;
    std::deque<std::pair<UTCTime, int>> q;
    std::unordered_set<uint64_t> seen;
    auto key = [](const UTCTime& t) { return mix(mix(1, t.sec), t.nsec); };
    for (size_t i = 0; i < inits.size(); ++i)
        if (mine(i)) { q.push_back({inits[i], 0}); seen.insert(key(inits[i])); state(key(inits[i])); }
    std::vector<std::pair<std::string, int>> hist;
    size_t cap = thorough() ? 40000000 : 4000000;
    while (!q.empty())
    {
        auto [t, d] = q.front();
        q.pop_front();
        ctx("state %s depth %d", sh(t).c_str(), d);
        // order against every near and boundary neighbour
        for (int64_t ds : {-1, 0, 1})
            for (int64_t n : {(int64_t)0, (int64_t)1, t.nsec - 1, t.nsec, t.nsec + 1, (int64_t)500000000, (int64_t)999999999})
                if (n >= 0 && n < (int64_t)E9)
                {
                    UTCTime o(t.sec + ds, n);
                    cmp(t, o);
                    UTCTime diff = t - o;
                    expect(val(diff) == val(t) - val(o), "difference value", sh(o));
                    expect(diff.nsec >= 0 && diff.nsec < E9, "difference normalised", sh(diff));
                    expect(fabs((long double)diff.toSec() - (long double)(val(t) - val(o)) * 1e-9L) < 1e-12L + 4e-16L * fabsl((long double)(val(t) - val(o)) * 1e-9L) + 3e-16, "difference in seconds", sh(o));
                    expect(o + diff == t, "o+(t-o)==t", sh(o));
                }
        expect(fabsl((long double)t.toSec() - (long double)val(t) * 1e-9L) <= 4e-16L * fabsl((long double)val(t) * 1e-9L) + 3e-16L, "toSec", str("%.17g", t.toSec()));
        if (d == depth) continue;
        for (auto& o : ops)
        {
            UTCTime r, c = t;
            I want;
            I tol = 0;
            switch (o.k)
            {
            case 0: r = t + o.d; c += o.d; want = val(t) + llr(o.d); tol = 1; break;
            case 1: r = t - o.d; c -= o.d; want = val(t) - llr(o.d); tol = 1; break;
            case 2: r = t + o.i; c += o.i; want = val(t) + (I)o.i * E9; break;
            case 3: r = t - o.i; c -= o.i; want = val(t) - (I)o.i * E9; break;
            case 4: r = t + o.u; c += o.u; want = val(t) + val(o.u); break;
            default: r = t - o.u; c -= o.u; want = val(t) - val(o.u); break;
            }
            if (o.k < 2 && fabs(o.d) > 9e6) tol = fabs(o.d) > 2e9 ? 1100 : 300;
            else if (o.k < 2 && (long double)o.d * 1e9L == floorl((long double)o.d * 1e9L)) tol = 0;
            transition();
            trace();
            I e = val(r) - want;
            static const char* names[] = {"time + seconds", "time - seconds", "time + int", "time - int", "time + time", "time - time"};
            expect(e <= tol && e >= -tol, str("%s value", names[o.k]), sh(t) + o.n + "=" + sh(r));
            expect(r.nsec >= 0 && r.nsec < E9, str("%s normalised", names[o.k]), sh(t) + o.n + "=" + sh(r));
            expect(c.sec == r.sec && c.nsec == r.nsec, str("compound form of %s", names[o.k]), sh(t) + o.n);
            if (val(r) > val(t)) expect(r > t && r >= t && !(r <= t), "sum later than start orders later", sh(t) + o.n);
            if (val(r) < val(t)) expect(r < t && r <= t && !(r >= t), "sum earlier than start orders earlier", sh(t) + o.n);
            outcome(mix(o.k, (r.nsec < t.nsec) * 2 + (r.sec < t.sec)));
            if (llabs(r.sec) < (1ll << 40) && seen.size() < cap && seen.insert(key(r)).second)
            {
                state(key(r));
                if (d == 1) sample(sh(t) + o.n + " -> " + sh(r));
                q.push_back({r, d + 1});
            }
        }
    }
    return finish();
}
