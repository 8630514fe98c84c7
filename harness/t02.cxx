// T02: GNSS time scales. Every week x boundary time-of-week, every calendar day, every reference/time-of-day pair on a grid.
#include "vh.h"
#include "common/utctime.h"
using namespace mc;
using namespace vh;
static const int64_t E9 = 1000000000;
static std::string sh(const UTCTime& t) { return str("(%lld,%lld)", (long long)t.sec, (long long)t.nsec); }
// days since 1970-01-01 of a proleptic Gregorian date (Hinnant), independent of libc
static int64_t days(int y, int m, int d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
static const int64_t GPS0 = 3657 * 86400LL + 18;  // 1980-01-06 plus the 18 leap seconds this library fixes
static const int64_t GLO0 = -3 * 3600;

static void gps(int w, int64_t tow)
{
    ctx("week %d tow_ms %lld", w, (long long)tow);
    int64_t s = GPS0 + (int64_t)w * 604800 + tow / 1000, n = tow % 1000 * 1000000;
    UTCTime a = UTCTime::fromGPS(w, (int)tow), e = UTCTime::fromGalileo(w, (int)tow);
    expect(a.sec == s && a.nsec == n, "GPS week/time-of-week to UTC", sh(a));
    expect(e == a, "Galileo shares the GPS scale", sh(e));
    expect(a.GpsWeek() == w, "UTC to GPS week", str("%d", a.GpsWeek()));
    expect(fabsl((long double)a.GpsTow() - tow * 1e-3L) < 3e-10L, "UTC to GPS time of week", str("%.9f", a.GpsTow()));
    for (int64_t x : {1, 499, 500000, 999999})
    {
        const UTCTime b(a.sec, a.nsec + x);
        expect(fabsl((long double)b.GpsTow() - tow * 1e-3L - x * 1e-9L) < 3e-10L && b.GpsWeek() == w, "UTC to GPS time of week", str("%.10f", b.GpsTow()));
    }
    expect(a.GpsTow() >= 0 && a.GpsTow() < 604800, "GPS time of week range");
    if (w >= 0)
    {
        UTCTime g = UTCTime::fromGlonass(w, (int)tow);
        int64_t gs = GLO0 + (int64_t)w * 604800 + tow / 1000;
        expect(g.sec == gs && g.nsec == n, "Glonass week/time-of-week to UTC", sh(g));
        expect(g.GlonassWeek() == w, "UTC to Glonass week", str("%d", g.GlonassWeek()));
        expect(g.GlonassDayOfWeek() == (int)(tow / 86400000), "UTC to Glonass day of week", str("%d", g.GlonassDayOfWeek()));
    }
    eval();
    nontrivial(mix(w, tow));
}

int main()
{
    init();
    std::vector<int64_t> tows = {0, 1, 500, 999, 1000, 1001, 1999};
    for (int d = 1; d < 7; ++d) for (int o : {-1, 0, 1, 500}) tows.push_back(d * 86400000LL + o);
    for (int64_t t : {302400000LL, 302399999LL, 604799000LL, 604799001LL, 604799999LL, 604798999LL, 345600250LL, 123456789LL}) tows.push_back(t);
    for (int w = 0; w < 4096; ++w)
        if (mine(w))
        {
            for (auto t : tows) gps(w, t);
            // times before the week's beginning
            for (int t : {-1, -2, -499, -500, -999, -1000, -1001, -86400000, -604799999, -604800000})
            {
                ctx("week %d tow_ms %d", w, t);
                UTCTime a = UTCTime::fromGPS(w, t), b = UTCTime::fromGPS(w, 0), c = UTCTime::fromGlonass(w, t), d = UTCTime::fromGlonass(w, 0);
                expect((a.sec - b.sec) * E9 + a.nsec - b.nsec == t * 1000000ll && a.nsec >= 0 && a.nsec < E9, "GPS time before the week to UTC", sh(a));
                expect((c.sec - d.sec) * E9 + c.nsec - d.nsec == t * 1000000ll && c.nsec >= 0 && c.nsec < E9, "GLONASS time before the week to UTC", sh(c));
                eval();
            }
        }
    // every second of whole weeks
    std::vector<int> full = {0, 1023, 1024, 2047, 2048, 2063, 3550, 3551, 4095};
    for (size_t i = 0; i < full.size(); ++i)
        for (int64_t s = 0; s < 604800; ++s)
            if (mine(s))
                for (int ms : {0, 1, 999}) { if (thorough() || ms == (int)(s % 3 == 0 ? 0 : s % 3 == 1 ? 1 : 999)) gps(full[i], s * 1000 + ms); }
    sample(str("week 3551 tow 604799999 -> %s", sh(UTCTime::fromGPS(3551, 604799999)).c_str()));

    // one physical instant in both scales: GLONASS = UTC + 3 h, GPS = UTC + 18 s (since 2017)
    if (first())
        for (int k = 0; k < 400; ++k)
        {
            int64_t utc = 1500000000LL + k * 86400 + k * 37;   // POSIX seconds
            int64_t gs = utc - 315964800 + 18, gl = utc + 3 * 3600;
            ctx("instant %lld", (long long)utc);
            UTCTime a = UTCTime::fromGPS(gs / 604800, (int)(gs % 604800 * 1000)), b = UTCTime::fromGlonass(gl / 604800, (int)(gl % 604800 * 1000));
            eval();
            int64_t d = a.sec - b.sec;
            if (d == 36) violation("GPS and GLONASS times of one instant are 36 s apart", str("UTC %lld: GPS gives %lld, GLONASS gives %lld", (long long)utc, (long long)a.sec, (long long)b.sec));
            else VH_EXPECT(d == 0, "GPS and GLONASS times of one instant agree", "%lld s apart", (long long)d);
        }

    // calendar: every day of 1970..2105 at boundary times of day
    for (int y = 1970; y <= 2105; ++y)
        for (int m = 1; m <= 12; ++m)
        {
            static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
            int last = ml[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0));
            for (int d = 1; d <= last; ++d)
            {
                if (!mine(y * 372 + m * 31 + d)) continue;
                for (int h : {0, 12, 23}) for (int mi : {0, 59}) for (double s : {0.0, 0.001, 1.001, 17.3, 30.0, 30.25, 59.0, 59.9, 59.9999999996, 60.0, 61.75})
                {
                    ctx("calendar %d-%d-%d %d:%d:%.10f", y, m, d, h, mi, s);
                    UTCTime t = UTCTime::fromCalendar(y, m, d, h, mi, s);
                    // the nanosecond nearest to the seconds given (a double carries more digits than that)
                    __int128 got = (__int128)t.sec * E9 + t.nsec - (__int128)(days(y, m, d) * 86400 + h * 3600 + mi * 60) * E9;
                    expect(fabsl((long double)got - (long double)s * 1e9L) <= 0.501L, "calendar to UTC", sh(t));
                    expect(t.nsec >= 0 && t.nsec < E9, "calendar time normalised", sh(t));
                    eval();
                }
                nontrivial(mix(mix(y, m), d));
            }
        }
    // Glonass time of day: the returned instant has that time of day and is the closest such instant to the reference
    int step = thorough() ? 300 : 1800;
    for (int64_t day : {0LL, 1LL, 3LL, 6LL, 7LL, 13LL, 18103LL, 18109LL, 30000LL})
        for (int64_t r = 0; r < 86400; r += step)
        {
            if (!mine(r / step)) continue;
            for (int64_t off : {0, 1, -1})
                for (int64_t nn : {(int64_t)0, (int64_t)999000000})
                {
                    UTCTime ref(day * 86400 + r + off + 10800, nn);
                    for (int64_t tod = 0; tod <= 86400; tod += step)
                        for (int64_t ms : {(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)250})
                        {
                            int64_t t = tod * 1000 + ms;
                            if (t < 0 || t >= 86400000) continue;
                            ctx("Glonass tod %lld ms ref %s", (long long)t, sh(ref).c_str());
                            UTCTime u = UTCTime::fromGlonassTimeOfDay(ref, (int)t);
                            int64_t gs = u.sec + 10800;
                            int64_t gtod = ((gs % 86400) + 86400) % 86400 * 1000 + u.nsec / 1000000;
                            expect(gtod == t && u.nsec % 1000000 == 0, "Glonass time of day is kept", sh(u));
                            double dt = (double)(u.sec - ref.sec) + (u.nsec - ref.nsec) * 1e-9;
                            expect(fabs(dt) <= 43200 + 1e-6, "Glonass time of day resolves to the closest instant", str("%.3f s away: %s", dt, sh(u).c_str()));
                            eval();
                            outcome(dt < -43000 ? 0 : dt > 43000 ? 1 : dt < 0 ? 2 : 3);
                        }
                }
        }
    return finish();
}
