// C11: calendar conversion against the proleptic Gregorian calendar.
#include "common/base/Base.h"
#include "mc.h"
#include "gregorian.h"
#include "common/time/TimeConversion.h"
using mc::Ctx; using nebula::Date; using nebula::DateTime; using nebula::Time; using TC = nebula::time::TimeConversion;

static std::string show(const DateTime& t) {
    char b[80]; snprintf(b, sizeof b, "%d-%02d-%02dT%02d:%02d:%02d.%06d", (int)t.year, (int)t.month, (int)t.day, (int)t.hour, (int)t.minute, (int)t.sec, (int)t.microsec); return b;
}
static DateTime mk(int64_t s, int us) {
    int64_t d = greg::fdiv(s, 86400), r = greg::fmod(s, 86400); auto c = greg::civil(d);
    return DateTime(c.y, c.m, c.d, r / 3600, r / 60 % 60, r % 60, us);
}
static bool same(const DateTime& a, const DateTime& b) {
    return (int)a.year == (int)b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.sec == b.sec && a.microsec == b.microsec;
}
static const int64_t LO = greg::days(-32768, 1, 1) * 86400, HI = greg::days(32767, 12, 31) * 86400 + 86399;

static inline void both(Ctx& c, int64_t s, const DateTime& dt) {   // dt is the calendar date-time of s
    int64_t g = TC::dateTimeToUnixSeconds(dt);
    if (g != s) c.fail("to-seconds", show(dt) + " converts to " + std::to_string(g) + " seconds since the epoch instead of " + std::to_string(s));
    DateTime r = TC::unixSecondsToDateTime(s);
    if (!same(r, dt)) c.fail("from-seconds", std::to_string(s) + " seconds since the epoch converts to " + show(r) + " instead of " + show(dt));
}
static void shifts(Ctx& c, int64_t s, int us, int64_t off) {
    if (s < LO || s > HI || s + off < LO || s + off > HI) return;
    DateTime a = mk(s, us), w = mk(s + off, us), r = TC::dateTimeShift(a, off);
    if (!same(r, w)) c.fail("shift", show(a) + " shifted by " + std::to_string(off) + " s gives " + show(r) + " instead of " + show(w));
    DateTime back = TC::dateTimeShift(r, -off);
    if (!same(back, a)) c.fail("shift-back", show(a) + " shifted by " + std::to_string(off) + " s and back gives " + show(back));
    if (TC::dateTimeDiffSeconds(r, a) != off || TC::dateTimeDiffSeconds(a, r) != -off) c.fail("difference", "difference of " + show(r) + " and " + show(a) + " is " + std::to_string(TC::dateTimeDiffSeconds(r, a)) + " s instead of " + std::to_string(off));
    Time t(a.hour, a.minute, a.sec, us), tr = TC::timeShift(t, off); int64_t m = greg::fmod(greg::fmod(s, 86400) + off, 86400);
    if (tr.hour != m / 3600 || tr.minute != m / 60 % 60 || tr.sec != m % 60 || tr.microsec != us)
        c.fail("time-shift", "time " + std::to_string(t.hour) + ":" + std::to_string(t.minute) + ":" + std::to_string(t.sec) + "." + std::to_string(us) + " shifted by " + std::to_string(off) + " s gives " + std::to_string(tr.hour) + ":" + std::to_string(tr.minute) + ":" + std::to_string(tr.sec) + "." + std::to_string(tr.microsec));
    Date d(a.year, a.month, a.day), dr = TC::dateShift(d, off); 
    int64_t ws = greg::fdiv(s, 86400) + greg::fdiv(off, 86400); auto cd = greg::civil(ws);
    if (cd.y >= -32768 && cd.y <= 32767 && (dr.year != cd.y || dr.month != cd.m || dr.day != cd.d))
        c.fail("date-shift", "date " + std::to_string(d.year) + "-" + std::to_string(d.month) + "-" + std::to_string(d.day) + " shifted by " + std::to_string(off) + " s gives " + std::to_string(dr.year) + "-" + std::to_string(dr.month) + "-" + std::to_string(dr.day));
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"every-day", [](Ctx& c) {   // every day of 256 years, by a calendar that is stepped day by day
        int blk = c.choose(256); int64_t y0 = -32768 + blk * 256;
        int64_t day = greg::days(y0, 1, 1), prev = INT64_MIN, n = 0;
        for (int64_t y = y0; y < y0 + 256; ++y) {
            if (TC::isLeapYear((int16_t)y) != greg::leap(y)) c.fail("leap-year", "isLeapYear(" + std::to_string(y) + ") is " + (greg::leap(y) ? "false" : "true"));
            for (int m = 1; m <= 12; ++m) for (int d = 1, k = greg::mdays(y, m); d <= k; ++d, ++day) {
                both(c, day * 86400, DateTime(y, m, d, 0, 0, 0, 0));
                both(c, day * 86400 + 86399, DateTime(y, m, d, 23, 59, 59, 0));
                Date dd(y, m, d);
                int64_t s = TC::dateToUnixSeconds(dd); Date r = TC::unixSecondsToDate(s + 86399 * (d & 1));
                if (s != day * 86400 || s <= prev) c.fail("date-to-seconds", "date " + std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(d) + " converts to " + std::to_string(s));
                if (!(r.year == y && r.month == m && r.day == d)) c.fail("date-from-seconds", std::to_string(s) + " converts to the date " + std::to_string(r.year) + "-" + std::to_string(r.month) + "-" + std::to_string(r.day));
                prev = s; ++n;
            }
        }
        MC_CHECK(c, day == greg::days(y0 + 256, 1, 1), "engine", "oracle disagreement");
        c.step(n * 6); c.state(std::to_string(blk)); c.outcome(greg::leap(y0) ? "leap" : "common");
    }, false, "all 65536 years, every day, first and last second"});
    sc.push_back({"every-second", [](Ctx& c) {   // every second of the days around boundaries
        static const int64_t ys[] = {-32768, -32767, -401, -400, -399, -101, -100, -5, -4, -1, 0, 1, 4, 99, 100, 101, 399, 400, 401, 1582, 1600, 1700, 1899, 1900, 1901, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2100, 2400, 9999, 32766, 32767};
        static const int md[][2] = {{1, 1}, {2, 28}, {3, 1}, {12, 31}, {6, 30}, {2, 29}};
        int64_t y = c.pick(std::vector<int64_t>(std::begin(ys), std::end(ys))); int k = c.choose(c.thorough() ? 6 : 4);
        int m = md[k][0], d = md[k][1]; if (d > greg::mdays(y, m)) d = 28;
        int64_t base = greg::days(y, m, d) * 86400;
        for (int i = 0; i < 86400; ++i) both(c, base + i, DateTime(y, m, d, i / 3600, i / 60 % 60, i % 60, 0));
        c.step(86400 * 2); c.state(std::to_string(base));
    }, false, "every second of 4 (6) days of 41 boundary years"});
    sc.push_back({"shifts", [](Ctx& c) {
        static const std::vector<int64_t> ys{-32768, -32767, -401, -400, -100, -4, -1, 0, 1, 4, 100, 400, 1582, 1900, 1969, 1970, 1971, 1972, 1999, 2000, 2004, 2038, 2100, 9999, 32767};
        static const int md[][2] = {{1, 1}, {1, 31}, {2, 28}, {2, 29}, {3, 1}, {4, 30}, {7, 31}, {9, 1}, {12, 31}};
        static const int tod[] = {0, 1, 59, 60, 3599, 3600, 43200, 86398, 86399};
        int64_t y = c.pick(ys); int k = c.choose(9); int64_t n = 0;
        int m = md[k][0], d = md[k][1]; if (d > greg::mdays(y, m)) d = greg::mdays(y, m);
        std::vector<int64_t> offs{0, 1, 59, 60, 61, 3599, 3600, 3601, 43200, 86399, 86400, 86401, 2 * 86400, 28 * 86400, 29 * 86400, 30 * 86400, 31 * 86400, 365LL * 86400, 366LL * 86400, 1460LL * 86400, 1461LL * 86400, 36524LL * 86400, 36525LL * 86400, 146096LL * 86400, 146097LL * 86400, 146097LL * 86400 * 5 + 12345};
        for (int q = 1; q <= 56; ++q) offs.push_back(q * 900);
        if (c.thorough()) for (int q = 1; q < 1000; ++q) offs.push_back(q * 86400LL * 37 + q);
        for (int t : tod) for (int us : {0, 1, 999999}) for (int64_t o : offs) for (int sg = -1; sg <= 1; sg += 2) { shifts(c, greg::days(y, m, d) * 86400 + t, us, sg * o); ++n; }
        c.step(n * 5); c.state(std::to_string(y * 100 + k));
    }, false, "25 years x 9 days x 9 times x 3 fractions x 164 offsets"});
    sc.push_back({"differences", [](Ctx& c) {   // differences of any two boundary date-times
        std::vector<int64_t> ss; static const int64_t ys[] = {-32768, -400, -100, -4, -1, 0, 1, 100, 1900, 1970, 2000, 2001, 32767};
        for (int64_t y : ys) for (int m : {1, 2, 3, 12}) for (int t : {0, 86399}) { ss.push_back(greg::days(y, m, 1) * 86400 + t); ss.push_back(greg::days(y, m, greg::mdays(y, m)) * 86400 + t); }
        int64_t a = c.pick(ss); DateTime da = mk(a, 5);
        for (int64_t b : ss) { DateTime db = mk(b, 7); int64_t g = TC::dateTimeDiffSeconds(da, db);
            if (g != a - b) c.fail("difference", "difference of " + show(da) + " and " + show(db) + " is " + std::to_string(g) + " s instead of " + std::to_string(a - b)); }
        for (int v = 0; v < 86400; ++v) { Time t(v / 3600, v / 60 % 60, v % 60, 3); if (TC::timeToSeconds(t) != v) c.fail("time-seconds", "time of day " + std::to_string(v) + " s converts to " + std::to_string(TC::timeToSeconds(t)));
            Time u = TC::unixSecondsToTime(v - 86400 * (v % 3)); if (u.hour != v / 3600 || u.minute != v / 60 % 60 || u.sec != v % 60) c.fail("seconds-time", "seconds " + std::to_string(v) + " give a wrong time of day"); }
        c.step(ss.size() + 172800); c.state(std::to_string(a));
    }, false, "all pairs of 208 boundary date-times"});
    return mc::run(argc, argv, "C11", sc, {"Results outside the 16-bit year range are not constrained."});
}
