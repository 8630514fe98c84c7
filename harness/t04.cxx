// T04: the text of an instant names it, to the millisecond. Every text is read back with independent calendar arithmetic.
#include "vh.h"

#include <fmt/format.h>
#include <fmt/ostream.h>
#include <iomanip>

#include "common/quantized_time.h"
#include "common/utctime.h"

using namespace mc;
typedef __int128 i128;

// days since 1970-01-01 of a date of the proleptic Gregorian calendar, counted by whole years
static i128 days(i128 y, int m, int d)
{
    static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    auto fl = [](i128 a, i128 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    i128 p = y - 1;
    i128 n = 365 * p + fl(p, 4) - fl(p, 100) + fl(p, 400);
    const i128 p0 = 1969;
    n -= 365 * p0 + p0 / 4 - p0 / 100 + p0 / 400;
    const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return n + cum[m - 1] + (m > 2 && leap ? 1 : 0) + d - 1;
}
static int month_len(i128 y, int m)
{
    static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return len[m - 1] + (m == 2 && leap);
}

// Reads a text: either seconds.mmm or year/month/day hour:minute:second.mmm; whole milliseconds since 1970
static const char* read_back(const std::string& s, bool date_only, i128& ms)
{
    size_t i = 0;
    auto num = [&](i128& v, int& digits) {
        bool neg = i < s.size() && s[i] == '-';
        if (neg) ++i;
        v = 0; digits = 0;
        while (i < s.size() && isdigit((unsigned char)s[i])) { v = v * 10 + (s[i] - '0'); ++i; ++digits; }
        if (neg) v = -v;
        return digits > 0;
    };
    auto lit = [&](char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; };
    i128 a, f; int n;
    if (!num(a, n)) return "starts with a number";
    if (lit('.'))
    {
        if (!num(f, n) || n != 3 || i != s.size()) return "has three digits of milliseconds";
        ms = a * 1000 + f;
        return date_only ? "is a date" : nullptr;
    }
    i128 mo, d, h, mi, se;
    if (!lit('/') || !num(mo, n) || !lit('/') || !num(d, n) || !lit(' ') || !num(h, n) || !lit(':') || !num(mi, n) || !lit(':') || !num(se, n) || !lit('.')) return "is a date and time";
    if (!num(f, n) || n != 3 || i != s.size()) return "has three digits of milliseconds";
    if (mo < 1 || mo > 12 || d < 1 || d > month_len(a, (int)mo) || h < 0 || h > 23 || mi < 0 || mi > 59 || se < 0 || se > 59) return "is a date that exists";
    ms = ((days(a, (int)mo, (int)d) * 24 + h) * 60 + mi) * 60 + se;
    ms = ms * 1000 + f;
    return nullptr;
}

static void look(const UTCTime& t)
{
    using namespace vh;
    ctx("sec %ld nsec %ld", (long)t.sec, (long)t.nsec);
    const i128 want = (i128)t.sec * 1000 + t.nsec / 1000000;
    std::stringstream ss;
    ss << t;
    const std::string a = t.str(), b = ss.str(), c = fmt::format("{}", t);
    const bool dated = t.sec > -60000000000000000ll && t.sec < 60000000000000000ll;
    for (int k = 0; k < 2; ++k)
    {
        i128 ms = 0;
        eval();
        const std::string& s = k ? b : a;
        const char* e = read_back(s, k == 0 && dated, ms);
        if (e) violation("the text of an instant is a time of the calendar or a number of seconds", std::string(e) + ": '" + s + "' @ " + g().sh->ctx);
        else VH_EXPECT(ms == want, "the text of an instant names it to the millisecond", "'%s' (%s) is off by %.3f s", s.c_str(), k ? "<<" : "str", (double)(ms - want) / 1000);
        outcome(hstr(s));
    }
    VH_EXPECT(b == c, "an instant is formatted as it is printed", "'%s' '%s'", b.c_str(), c.c_str());
    // what is printed before and after is not touched, whatever the state of the stream
    std::stringstream st;
    st << std::setfill('*') << std::setw(4) << 7 << t << std::setw(4) << 7;
    VH_EXPECT(st.str() == "***7" + b + "***7", "printing an instant leaves the stream as it was", "'%s'", st.str().c_str());
    state(mix(t.sec, t.nsec));
    nontrivial(hstr(a));
}

int main()
{
    using namespace vh;
    init();
    uint64_t c = 0;
    const std::vector<int64_t> ns{0, 1, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 123456789, 999000000, 999999999};
    // every millisecond of a second, at its first and last nanosecond
    for (int64_t s : {0ll, 1ll, -1ll, 59ll, 1600000000ll, -86401ll, 4102444799ll})
        for (int64_t m = 0; m < 1000; ++m) if (mine(c++)) for (int64_t r : {0, 1, 999999}) look(UTCTime(s, m * 1000000 + r));
    // every second of days (an ordinary one, the ends of years, leap days, the ends of 1970)
    for (i128 d0 : {days(2026, 11, 20), days(1999, 12, 31), days(2000, 2, 29), days(2023, 2, 28), days(1970, 1, 1), days(1970, 12, 31), days(1971, 1, 1), days(1969, 12, 31)})
        for (int64_t s = 0; s < 86400; ++s) if (mine(c++)) look(UTCTime((int64_t)d0 * 86400 + s, ns[s % ns.size()]));
    // every day
    const int64_t D0 = (int64_t)days(thorough() ? 1600 : 1900, 1, 1), D1 = (int64_t)days(thorough() ? 2500 : 2201, 1, 1);
    for (int64_t d = D0; d < D1; ++d) if (mine(c++)) for (int64_t s : {0ll, 43200ll, 86399ll}) look(UTCTime(d * 86400 + s, ns[(d % 11 + 11) % 11]));
    // far away, both ways
    for (int e = 0; e < 63; ++e) for (int64_t o : {-1, 0, 1}) for (int sg : {-1, 1}) if (mine(c++)) for (int64_t n : ns) look(UTCTime(sg * ((int64_t)1 << e) + o, n));
    if (first())
    {
        for (auto& t : {UTCTime::max(), UTCTime::min(), INVALID_TIME, MIN_TIME, MAX_TIME, UTCTime()}) look(t);
        sample(UTCTime(1600000000, 5000000).str());
        sample(MAX_TIME.str());
    }
    return finish();
}
