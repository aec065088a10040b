// C21: date arithmetic, ordering and printing.
#include "common/base/Base.h"
#include "mc.h"
#include "gregorian.h"
#include "common/datatypes/Date.h"
#include <set>
using mc::Ctx; using nebula::Date; using nebula::DateTime; using nebula::Time;

static std::string show(int64_t y, int m, int d) { char b[40]; snprintf(b, sizeof b, "%ld-%02d-%02d", (long)y, m, d); return b; }
static std::string show(const Date& d) { return show(d.year, d.month, d.day); }
static bool is(const Date& d, const greg::Civil& w) { return d.year == w.y && d.month == w.m && d.day == w.d; }
// The calendar in which every fourth year is a leap year (known finding century-year): day number of a date in it.
static int64_t fourth(int64_t y, int m, int d) {
    static const int c[2][12] = {{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}, {0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335}};
    int64_t n = y + 32768; return n * 365 + (n + 3) / 4 + c[n % 4 == 0][m - 1] + d - 1;
}
// Is the result of moving from a to r exactly what the fourth-year rule gives, and does the move cross the 29 February of a common century year?
static bool centuryDeviation(const Date& a, int64_t off, const Date& r) {
    int64_t ya = a.year, yr = r.year; if (ya > yr) std::swap(ya, yr);
    bool crosses = false;
    for (int64_t y = ya; y <= yr && !crosses; ++y) crosses = y % 100 == 0 && y % 400 != 0;
    return crosses && fourth(r.year, r.month, r.day) == fourth(a.year, a.month, a.day) + off;
}
static void shift(Ctx& c, int64_t y, int m, int d, int64_t off, bool sub) {
    int64_t n = greg::days(y, m, d) + off; if (n < greg::days(-32768, 1, 1) || n > greg::days(32767, 12, 31)) return;
    Date a(y, m, d), r = sub ? a - (-off) : a + off; auto w = greg::civil(n);
    if (is(r, w)) return;
    if (centuryDeviation(a, off, r) && c.known("century-year")) return;
    c.fail("shift", show(a) + (sub ? " - " : " + ") + std::to_string(sub ? -off : off) + " days gives " + show(r) + " instead of " + show(w.y, w.m, w.d));
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"every-day", [](Ctx& c) {   // the day number is a bijection between valid dates, growing with time; the neighbours are right
        int blk = c.choose(256); int64_t y0 = -32768 + blk * 256, n = 0, prev = INT64_MIN;
        for (int64_t y = y0; y < y0 + 256; ++y) for (int m = 1; m <= 12; ++m) for (int d = 1, k = greg::mdays(y, m); d <= k; ++d, ++n) {
            Date a(y, m, d); int64_t v = a.toInt(); Date b; b.fromInt(v); Date e((uint64_t)v);
            if (!is(b, {y, m, d}) || !is(e, {y, m, d})) c.fail("round-trip", show(a) + " is day number " + std::to_string(v) + ", which is " + show(b));
            if (v < 0 || v <= prev) c.fail("monotone", "the day number " + std::to_string(v) + " of " + show(a) + " does not come after the one of the day before");
            if (prev != INT64_MIN && v != prev + 1 && !(v == prev + 2 && m == 3 && d == 1 && y % 100 == 0 && y % 400 != 0 && c.known("century-year")))
                c.fail("consecutive", "the day number of " + show(a) + " is not the successor of that of the day before");
            prev = v;
            if (d == 1 || d >= 27 || d == 15) for (int o : {1, 2, 30, 31, 365}) { shift(c, y, m, d, o, false); shift(c, y, m, d, -o, true); shift(c, y, m, d, -o, false); shift(c, y, m, d, o, true); }
        }
        if (y0 == -32768 && Date(y0, 1, 1).toInt() != 0) c.fail("origin", "-32768-01-01 is not day 0");
        c.step(n * 3); c.state(std::to_string(blk));
    }, false, "every day of all 65536 years"});
    sc.push_back({"shifts", [](Ctx& c) {
        static const std::vector<int64_t> ys{-32768, -32767, -401, -400, -399, -101, -100, -4, -1, 0, 1, 4, 96, 100, 104, 400, 1582, 1896, 1900, 1904, 1970, 2000, 2004, 2020, 2100, 32764, 32767};
        int64_t y = c.pick(ys); int64_t n = 0;
        std::vector<int64_t> offs{0, 1, 27, 28, 29, 30, 31, 32, 59, 60, 61, 364, 365, 366, 367, 730, 1095, 1096, 1460, 1461, 1462, 36523, 36524, 36525, 73048, 146096, 146097, 146098, 11968511, 11968512, 23936000};
        if (c.thorough()) for (int i = 0; i < 1500; ++i) offs.push_back(i);
        for (int m = 1; m <= 12; ++m) for (int d = 1, k = greg::mdays(y, m); d <= k; ++d) for (int64_t o : offs) for (int s = -1; s <= 1; s += 2) {
            shift(c, y, m, d, s * o, false); shift(c, y, m, d, s * o, true); n += 2;
            int64_t t = greg::days(y, m, d) + s * o;   // subtraction undoes addition, whatever the calendar
            if (t >= greg::days(-32768, 1, 1) + 1000 && t <= greg::days(32767, 12, 31) - 1000) { Date a(y, m, d), b = a + s * o, e = b - s * o; if (!(e == a)) c.fail("undo", show(a) + " + " + std::to_string(s * o) + " - " + std::to_string(s * o) + " days gives " + show(e)); }
        }
        c.step(n); c.state(std::to_string(y));
    }, false, "27 years x every day x 31 offsets and both directions"});
    sc.push_back({"order", [](Ctx& c) {   // all pairs of boundary dates, times and date-times
        int kind = c.choose(3);
        if (kind == 0) {
            std::vector<Date> v; for (int y : {-32768, -1, 0, 1, 1999, 2000, 32767}) for (int m : {1, 2, 11, 12}) for (int d : {1, 2, 28, 31}) v.push_back(Date(y, m, d));
            auto key = [](const Date& a) { return ((int64_t)a.year * 16 + a.month) * 64 + a.day; };
            for (auto& a : v) for (auto& b : v) {
                if ((a < b) != (key(a) < key(b)) || (a == b) != (key(a) == key(b))) c.fail("date-order", show(a) + " and " + show(b) + " are compared wrongly");
                if (a == b && std::hash<Date>()(a) != std::hash<Date>()(b)) c.fail("date-hash", "equal dates " + show(a) + " have different hashes"); c.step(2); }
            std::set<size_t> hs; for (auto& a : v) hs.insert(std::hash<Date>()(a)); if (hs.size() < v.size() * 9 / 10) c.fail("date-hash-spread", "dates share hashes");
            std::set<std::string> ts; for (auto& a : v) { std::string w = std::to_string(a.year); char b[16]; snprintf(b, sizeof b, "-%02d-%02d", a.month, a.day); std::ostringstream o; o << a; if (a.toString() != w + b || o.str() != w + b) c.fail("date-text", show(a) + " prints as " + a.toString()); }
            Date z(5, 6, 7); z.clear(); if (!(z == Date())) c.fail("date-clear", "a cleared date is not the default one"); z.reset(9, 8, 7); if (!(z == Date(9, 8, 7))) c.fail("date-reset", "reset gives " + show(z));
        } else if (kind == 1) {
            std::vector<Time> v; for (int h : {0, 1, 12, 23}) for (int m : {0, 1, 59}) for (int s : {0, 9, 59}) for (int u : {0, 1, 65536, 999999}) v.push_back(Time(h, m, s, u));
            auto key = [](const Time& a) { return ((a.hour * 60LL + a.minute) * 60 + a.sec) * 1000000 + a.microsec; };
            std::set<size_t> hs;
            for (auto& a : v) { for (auto& b : v) { if ((a < b) != (key(a) < key(b)) || (a == b) != (key(a) == key(b))) c.fail("time-order", a.toString() + " and " + b.toString() + " are compared wrongly");
                    if (a == b && std::hash<Time>()(a) != std::hash<Time>()(b)) c.fail("time-hash", "equal times " + a.toString() + " have different hashes"); c.step(2); }
                hs.insert(std::hash<Time>()(a));
                char t[40]; snprintf(t, sizeof t, "%02d:%02d:%02d.%06d", a.hour, a.minute, a.sec, a.microsec); std::ostringstream o; o << a; if (a.toString() != t || o.str() != t) c.fail("time-text", std::string(t) + " prints as " + a.toString()); }
            if (hs.size() < v.size() * 9 / 10) c.fail("time-hash-spread", "times share hashes");
            Time z(5, 6, 7, 8); z.clear(); if (!(z == Time())) c.fail("time-clear", "a cleared time is not the default one");
        } else {
            std::vector<DateTime> v; std::vector<__int128> k;
            for (int y : {-32768, -1, 0, 32767}) for (int m : {1, 2, 12}) for (int d : {1, 31}) for (int h : {0, 23}) for (int mi : {0, 59}) for (int s : {0, 59}) for (int u : {0, 1, 999999}) {
                v.push_back(DateTime(y, m, d, h, mi, s, u)); k.push_back((((((__int128)y * 16 + m) * 32 + d) * 32 + h) * 64 + mi) * 64 * 1048576 + (__int128)s * 1048576 + u); }
            std::set<size_t> hs;
            for (size_t i = 0; i < v.size(); ++i) { for (size_t j = 0; j < v.size(); ++j) { const DateTime &a = v[i], &b = v[j]; if ((a < b) != (k[i] < k[j]) || (a == b) != (i == j)) c.fail("datetime-order", a.toString() + " and " + b.toString() + " are compared wrongly"); }
                DateTime copy((int)v[i].year, v[i].month, v[i].day, v[i].hour, v[i].minute, v[i].sec, v[i].microsec);
                if (!(copy == v[i]) || std::hash<DateTime>()(copy) != std::hash<DateTime>()(v[i])) c.fail("datetime-hash", "equal date-times " + v[i].toString() + " have different hashes");
                hs.insert(std::hash<DateTime>()(copy));
                char t[64]; snprintf(t, sizeof t, "%d-%02d-%02dT%02d:%02d:%02d.%d", (int)copy.year, (int)copy.month, (int)copy.day, (int)copy.hour, (int)copy.minute, (int)copy.sec, (int)copy.microsec);
                std::ostringstream o; o << copy; if (copy.toString() != t || o.str() != t) c.fail("datetime-text", std::string(t) + " prints as " + copy.toString()); }
            c.step(v.size() * v.size());
            if (hs.size() < v.size() * 9 / 10) c.fail("datetime-hash-spread", "date-times share hashes");
            DateTime z(5, 6, 7, 8, 9, 10, 11); z.clear(); if (!(z == DateTime())) c.fail("datetime-clear", "a cleared date-time is not the default one");
            Date d(1999, 12, 31); if (!(DateTime(d) == DateTime(1999, 12, 31, 0, 0, 0, 0))) c.fail("datetime-from-date", "date-time of a date is " + DateTime(d).toString());
        }
        c.state(std::to_string(kind));
    }, false, "all pairs of 112 dates, 144 times and 576 date-times"});
    return mc::run(argc, argv, "C21", sc, {"Shifts whose result lies outside the 16-bit year range are not constrained."});
}
