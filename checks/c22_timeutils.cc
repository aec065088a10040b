// C22: dates and times as text and as maps, attributes, timestamps, zone shifts.
#include "common/base/Base.h"
#include "mc.h"
#include "gregorian.h"
#include "common/time/TimeUtils.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/List.h"
#include <dlfcn.h>
using mc::Ctx; using namespace nebula; using TU = nebula::time::TimeUtils; using nebula::time::Timezone;
DECLARE_string(timezone_name);

static int64_t g_ms = -1;   // virtual wall clock, used when >= 0
extern "C" time_t time(time_t* p) noexcept {
    static auto real = (time_t(*)(time_t*))dlsym(RTLD_NEXT, "time");
    time_t t = g_ms >= 0 ? g_ms / 1000 : real(nullptr); if (p) *p = t; return t;
}
namespace nebula { namespace time {
int64_t WallClock::fastNowInSec() { return g_ms / 1000; }
int64_t WallClock::fastNowInMilliSec() { return g_ms; }
int64_t WallClock::fastNowInMicroSec() { return g_ms * 1000; }
int64_t WallClock::slowNowInSec() { return g_ms / 1000; }
int64_t WallClock::slowNowInMilliSec() { return g_ms; }
int64_t WallClock::slowNowInMicroSec() { return g_ms * 1000; }
} }

static std::string show(const DateTime& t) { char b[80]; snprintf(b, sizeof b, "%d-%02d-%02dT%02d:%02d:%02d.%06d", (int)t.year, (int)t.month, (int)t.day, (int)t.hour, (int)t.minute, (int)t.sec, (int)t.microsec); return b; }
static std::string show(const Date& d) { char b[40]; snprintf(b, sizeof b, "%d-%02d-%02d", d.year, d.month, d.day); return b; }
static std::string show(const Time& t) { char b[40]; snprintf(b, sizeof b, "%02d:%02d:%02d.%06d", t.hour, t.minute, t.sec, t.microsec); return b; }

struct Comp { const char* name; int64_t lo, hi, def; };
static const Comp COMPS[] = {{"year", -32768, 32767, 0}, {"month", 1, 12, 1}, {"day", 1, 31, 1}, {"hour", 0, 23, 0}, {"minute", 0, 59, 0}, {"second", 0, 59, 0}, {"microsecond", 0, 999999, 0}};

static void fromMap(Ctx& c, const Map& m, bool bad, const int64_t* v) {   // bad: some entry of the map is not acceptable for any kind
    bool dateBad = bad, timeBad = bad, dtBad = bad;
    for (auto& kv : m.kvs) { int i = 0; for (; i < 7; ++i) if (kv.first == COMPS[i].name) break;
        if (i == 7) dateBad = timeBad = dtBad = true; else if (i < 3) timeBad = true; else dateBad = true; }
    bool exists = v[1] >= 1 && v[1] <= 12 && v[2] >= 1 && v[2] <= greg::mdays(v[0], (int)v[1]);
    std::string shown = Value(m).toString();
    { auto r = TU::dateFromMap(m); bool want = !dateBad && exists; c.step();
      if (r.ok() != want) c.fail("date-map", "a date from the map " + shown + " is " + (r.ok() ? "accepted" : "rejected: " + r.status().toString()));
      if (r.ok() && !(r.value() == Date(v[0], v[1], v[2]))) c.fail("date-map-value", "a date from the map " + shown + " is " + show(r.value())); }
    { auto r = TU::timeFromMap(m); bool want = !timeBad; c.step();
      if (r.ok() != want) c.fail("time-map", "a time from the map " + shown + " is " + (r.ok() ? "accepted" : "rejected: " + r.status().toString()));
      if (r.ok() && !(r.value() == Time(v[3], v[4], v[5], v[6]))) c.fail("time-map-value", "a time from the map " + shown + " is " + show(r.value())); }
    { auto r = TU::dateTimeFromMap(m); bool want = !dtBad && exists; c.step();
      if (r.ok() != want) c.fail("datetime-map", "a date-time from the map " + shown + " is " + (r.ok() ? "accepted" : "rejected: " + r.status().toString()));
      if (r.ok() && !(r.value() == DateTime(v[0], v[1], v[2], v[3], v[4], v[5], v[6]))) c.fail("datetime-map-value", "a date-time from the map " + shown + " is " + show(r.value())); }
}

// Strict reading of a text: components with their separators, nothing before or after.
struct Text { std::string s; bool dateOk, timeOk, dtOk; int64_t v[7]; bool suffix; };

static void zone(const std::string& z) { FLAGS_timezone_name = z; auto s = Timezone::initializeGlobalTimezone(); if (!s.ok()) mc::ctx().fail("zone", "the zone " + z + " is rejected: " + s.toString()); }

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"maps", [](Ctx& c) {   // one or two components off their default, every boundary and every foreign type
        int i = c.choose(8), j = c.choose(8); if (j < i) throw mc::Abandon();
        auto vals = [](int k) { std::vector<Value> r; if (k == 7) { r = {Value(1)}; return r; }
            const Comp& p = COMPS[k]; for (int64_t x : {p.lo - 1, p.lo, p.lo + 1, p.hi - 1, p.hi, p.hi + 1, (int64_t)0, (int64_t)-1, (int64_t)28, (int64_t)29, (int64_t)30, (int64_t)1900, (int64_t)2000, (int64_t)2001, (int64_t)2, (int64_t)4, p.lo + 65536, p.lo + 256, (int64_t)INT64_MAX, (int64_t)INT64_MIN}) r.push_back(Value(x));
            r.push_back(Value(1.0)); r.push_back(Value("1")); r.push_back(Value(true)); r.push_back(Value(NullType::__NULL__)); r.push_back(Value()); r.push_back(Value(List({Value(1)}))); return r; };
        auto A = vals(i), B = vals(j);
        static const char* other[] = {"Year", "timezone", "", "seconds"};
        int third = c.choose(i == 0 && j == 1 ? 6 : 1);   // with year and month, also a day
        for (auto& a : A) for (auto& b : B) { if (i == j && !(a.type() == b.type() && a == b)) continue;
            Map m; bool bad = false; int64_t v[7]; for (int k = 0; k < 7; ++k) v[k] = COMPS[k].def;
            auto put = [&](int k, const Value& x) { if (k == 7) { m.kvs.emplace(other[(i + j) % 4], x); return; } m.kvs.emplace(COMPS[k].name, x);
                if (!x.isInt()) bad = true; else { v[k] = x.getInt(); if (v[k] < COMPS[k].lo || v[k] > COMPS[k].hi) bad = true; } };
            put(i, a); if (j != i) put(j, b);
            if (third) put(2, Value((int64_t)(27 + third - 1)));
            fromMap(c, m, bad, v); }
        c.state(std::to_string(i * 100 + j * 10 + third)); c.outcome(i == 7 ? "foreign" : "components");
        if (i == 0 && j == 0) { Map e; int64_t v[7]; for (int k = 0; k < 7; ++k) v[k] = COMPS[k].def; fromMap(c, e, false, v); }
    }, false, "all maps of up to three components over 26 boundary and ill-typed values each"});
    sc.push_back({"texts", [](Ctx& c) {
        static const std::vector<std::string> ys{"0", "1", "0099", "1900", "1970", "2000", "2001", "2020", "9999", "99999", "-1", "x", ""};
        static const std::vector<std::string> ms{"01", "1", "02", "2", "12", "00", "13", "2x", "", "04"};
        static const std::vector<std::string> ds{"01", "9", "28", "29", "30", "31", "00", "32", "", "-1"};
        static const std::vector<std::string> hs{"00", "7", "23", "24", "99", "", "x"}, mis{"00", "5", "59", "60", ""}, ss{"00", "5", "59", "60", "61", "99", ""};
        static const std::vector<std::string> sfx{"", "x", ".5", "Z", " ", "9"};
        int fam = c.choose(3);
        auto num = [](const std::string& s, size_t width, int64_t& o) { if (s.empty() || s.size() > width) return false; for (char ch : s) if (ch < '0' || ch > '9') return false; o = std::stoll(s); return true; };
        auto expect = [&](const char* what, const std::string& t, bool got, bool want, bool suffix) {
            c.step();
            if (got == want) return;
            if (suffix && got && c.known(std::string("text-suffix"))) return;
            c.fail(std::string(what) + "-text", std::string(what) + " text '" + t + "' is " + (got ? "accepted" : "rejected")); };
        if (fam == 0) {
            const auto& y = c.pick(ys); const auto& m = c.pick(ms);
            for (auto& d : ds) for (const char* sep : {"-", "/", " ", ""}) for (auto& x : sfx) {
                int64_t Y, M, D; bool ok = num(y, 4, Y) & num(m, 2, M) & num(d, 2, D) && M >= 1 && M <= 12 && D >= 1 && D <= greg::mdays(Y, M) && std::string(sep) == "-";
                std::string t = y + sep + m + sep + d + x;
                if (std::string(sep) == "" ) { if (y.size() < 4 || m.size() < 2) continue; }
                if (!x.empty() && isdigit(x[0]) && d.size() < 2) continue;     // another date
                auto r = TU::parseDate(t); expect("date", t, r.ok(), ok && x.empty(), ok && !x.empty());
                if (r.ok() && ok && !(r.value() == Date(Y, M, D))) c.fail("date-text-value", "date text '" + t + "' gives " + show(r.value())); }
            c.state(y + "," + m);
        } else if (fam == 1) {
            const auto& h = c.pick(hs);
            for (auto& mi : mis) for (auto& s : ss) for (const char* sep : {":", "-", "."}) for (auto& x : sfx) {
                int64_t H, M, S; bool ok = num(h, 2, H) & num(mi, 2, M) & num(s, 2, S) && H < 24 && M < 60 && S < 60 && std::string(sep) == ":";
                if (ok && !x.empty() && isdigit(x[0]) && s.size() < 2) continue;
                if (!ok && std::string(sep) == ":" && !x.empty() && isdigit(x[0]) && s.size() < 2) continue;
                // a third digit of the seconds
                std::string t = h + sep + mi + sep + s + x; bool extra = s.size() == 2 && S >= 60 ? false : !x.empty();
                auto r = TU::parseTime(t); expect("time", t, r.ok(), ok && x.empty(), ok && extra);
                if (r.ok() && ok && !(r.value() == Time(H, M, S, 0))) c.fail("time-text-value", "time text '" + t + "' gives " + show(r.value())); }
            c.state("t" + h);
        } else {
            static const std::vector<std::string> dates{"2020-02-29", "2021-02-29", "1900-02-29", "2000-02-29", "1970-01-01", "1969-12-31", "2020-2-3", "2020-13-01", "2020-00-10", "9999-12-31", "2020-04-31", "0-1-1", "2020-01", "x", ""};
            const auto& d = c.pick(dates); int Y = 0, M = 0, D = 0; bool dok = sscanf(d.c_str(), "%d-%d-%d", &Y, &M, &D) == 3 && M >= 1 && M <= 12 && D >= 1 && D <= greg::mdays(Y, M);
            for (const char* sep : {"T", " ", "_", "TT"}) for (auto& h : hs) for (auto& mi : mis) for (auto& s : ss) for (auto& x : sfx) {
                int64_t H, Mi, S; bool sok = std::string(sep) == "T" || std::string(sep) == " ";
                bool ok = dok & num(h, 2, H) & num(mi, 2, Mi) & num(s, 2, S) && H < 24 && Mi < 60 && S < 60 && sok;
                if (!x.empty() && isdigit(x[0]) && s.size() < 2) continue;
                std::string t = d + sep + h + ":" + mi + ":" + s + x;
                auto r = TU::parseDateTime(t); expect("date-time", t, r.ok(), ok && x.empty(), ok && !x.empty());
                DateTime w(Y, M, D, H, Mi, S, 0);
                if (r.ok() && ok && !(r.value() == w)) c.fail("datetime-text-value", "date-time text '" + t + "' gives " + show(r.value()));
                if (x.empty()) { auto ts = TU::toTimestamp(Value(t)); int64_t secs = ok ? greg::days(Y, M, D) * 86400 + H * 3600 + Mi * 60 + S : -1; bool tw = ok && secs >= 0 && secs <= INT64_MAX / 1000000000; c.step();
                    if (ts.ok() != tw || (tw && !(ts.value().isInt() && ts.value().getInt() == secs))) c.fail("timestamp-text", "timestamp of '" + t + "' is " + (ts.ok() ? ts.value().toString() : "rejected")); } }
            c.state("d" + d);
        }
        c.outcome(std::to_string(fam));
    }, false, "all texts over boundary components, separators and suffixes"});
    sc.push_back({"timestamps", [](Ctx& c) {
        int64_t mx = INT64_MAX / 1000000000;
        for (int64_t v : {(int64_t)INT64_MIN, (int64_t)-1, (int64_t)0, (int64_t)1, mx - 1, mx, mx + 1, (int64_t)INT64_MAX}) { auto r = TU::toTimestamp(Value(v)); bool w = v >= 0 && v <= mx; c.step();
            if (r.ok() != w || (w && r.value().getInt() != v)) c.fail("timestamp-int", "timestamp of " + std::to_string(v) + " is " + (r.ok() ? "accepted" : "rejected")); }
        for (auto& v : {Value(), Value(1.0), Value(true), Value(NullType::__NULL__), Value(Date(2000, 1, 1)), Value(List({Value(1)})), Value(DateTime(2000, 1, 1, 0, 0, 0, 0))}) { c.step(); if (TU::toTimestamp(v).ok()) c.fail("timestamp-type", "timestamp of " + v.toString() + " is accepted"); }
        DateTime t(-5, 6, 7, 8, 9, 10, 11); Date d(-5, 6, 7); Time m(8, 9, 10, 11);
        static const char* names[] = {"year", "month", "day", "hour", "minute", "second", "microsecond"}; static const int want[] = {-5, 6, 7, 8, 9, 10, 11};
        auto attr = [&](const Value& g, bool has, int w, const std::string& n) { c.step(); if (has ? !(g.isInt() && g.getInt() == w) : !(g.isNull() && g.getNull() == NullType::UNKNOWN_PROP)) c.fail("attribute", "attribute '" + n + "' is " + g.toString()); };
        for (int i = 0; i < 7; ++i) for (int up = 0; up < 3; ++up) { std::string n = names[i]; if (up) for (size_t k = 0; k < n.size(); ++k) if (up == 2 || k == 0) n[k] = toupper(n[k]);
            attr(TU::getDateTimeAttr(t, n), true, want[i], n); attr(TU::getDateAttr(d, n), i < 3, want[i], n); attr(TU::getTimeAttr(m, n), i >= 3, want[i], n); }
        for (const char* n : {"", "years", "sec", "y", "millisecond"}) { attr(TU::getDateTimeAttr(t, n), false, 0, n); attr(TU::getDateAttr(d, n), false, 0, n); attr(TU::getTimeAttr(m, n), false, 0, n); }
        int z = c.choose(3); c.state(std::to_string(z));
        // leap-day validation for every year
        for (int y = -32768 + z * 22000; y <= 32767 && y < -32768 + (z + 1) * 22000; ++y) for (int k = 1; k <= 12; ++k) for (int dd = 27; dd <= 31; ++dd) { bool w = dd <= greg::mdays(y, k); c.step(2);
            if (TU::validateDate(Date(y, k, dd)).ok() != w || TU::validateDate(DateTime(y, k, dd, 0, 0, 0, 0)).ok() != w) c.fail("validate", show(Date(y, k, dd)) + " is " + (w ? "rejected" : "accepted")); }
    }, false, "boundary numbers, every value type, every attribute; every month end of every year"});
    sc.push_back({"zones", [](Ctx& c) {   // every quarter hour offset and both directions
        static const std::vector<int> q = [] { std::vector<int> r; for (int i = -48; i <= 56; ++i) r.push_back(i); return r; }();
        int o = c.pick(q) * 900; char z[32]; snprintf(z, sizeof z, "UTC%c%02d:%02d:00", o < 0 ? '-' : '+', abs(o) / 3600, abs(o) / 60 % 60); zone(z);
        if (Timezone::getGlobalTimezone().utcOffsetSecs() != o) c.fail("offset", std::string("the zone ") + z + " has the offset " + std::to_string(Timezone::getGlobalTimezone().utcOffsetSecs()));
        for (int y : {-32767, -1, 0, 1900, 1969, 1970, 2000, 2020, 32766}) for (int m : {1, 2, 3, 12}) for (int d : {1, 28, 29, 31}) for (int t : {0, 1, 900, 43200, 86399}) { if (d > greg::mdays(y, m)) continue;
            int64_t s = greg::days(y, m, d) * 86400 + t; DateTime a(y, m, d, t / 3600, t / 60 % 60, t % 60, 77);
            auto mk = [](int64_t s) { auto g = greg::civil(greg::fdiv(s, 86400)); int64_t r = greg::fmod(s, 86400); return DateTime(g.y, g.m, g.d, r / 3600, r / 60 % 60, r % 60, 77); };
            DateTime u = TU::dateTimeToUTC(a), l = TU::utcToDateTime(a); c.step(4);
            if (!(u == mk(s - o))) c.fail("to-utc", show(a) + " in zone " + z + " is " + show(u) + " UTC instead of " + show(mk(s - o)));
            if (!(l == mk(s + o))) c.fail("to-local", show(a) + " UTC is " + show(l) + " in zone " + z + " instead of " + show(mk(s + o)));
            if (!(TU::utcToDateTime(u) == a)) c.fail("zone-round-trip", show(a) + " does not survive the round trip to UTC in zone " + z);
            Time ta(a.hour, a.minute, a.sec, 77), tu = TU::timeToUTC(ta), tl = TU::utcToTime(ta); int64_t wu = greg::fmod(t - o, 86400), wl = greg::fmod(t + o, 86400);
            if (!(tu == Time(wu / 3600, wu / 60 % 60, wu % 60, 77)) || !(tl == Time(wl / 3600, wl / 60 % 60, wl % 60, 77)) || !(TU::utcToTime(tu) == ta)) c.fail("time-zone", show(ta) + " in zone " + z + " is converted wrongly"); }
        for (int64_t s : {(int64_t)0, (int64_t)1, (int64_t)951782399, (int64_t)951782400, (int64_t)1606780799, (int64_t)1609459199, (int64_t)1609459200}) for (int ms : {0, 1, 999}) {
            g_ms = s * 1000 + ms; auto g = greg::civil(greg::fdiv(s, 86400)), gl = greg::civil(greg::fdiv(s + o, 86400)); int64_t r = greg::fmod(s, 86400), rl = greg::fmod(s + o, 86400);
            auto ud = TU::utcDate(), ld = TU::localDate(); auto ut = TU::utcTime(), lt = TU::localTime(); auto udt = TU::utcDateTime(), ldt = TU::localDateTime(); g_ms = -1; c.step(6);
            if (!ud.ok() || !(ud.value() == Date(g.y, g.m, g.d))) c.fail("utc-date", "UTC date of " + std::to_string(s) + " is " + show(ud.value()));
            if (!ld.ok() || !(ld.value() == Date(gl.y, gl.m, gl.d))) c.fail("local-date", "local date of " + std::to_string(s) + " in zone " + z + " is " + show(ld.value()));
            if (!(ut == Time(r / 3600, r / 60 % 60, r % 60, ms * 1000))) c.fail("utc-time", "UTC time of " + std::to_string(s) + " is " + show(ut));
            if (!(lt == Time(rl / 3600, rl / 60 % 60, rl % 60, ms * 1000))) c.fail("local-time", "local time of " + std::to_string(s) + " in zone " + z + " is " + show(lt));
            if (!(udt == DateTime(g.y, g.m, g.d, r / 3600, r / 60 % 60, r % 60, ms * 1000))) c.fail("utc-datetime", "UTC date-time of " + std::to_string(s) + " is " + show(udt));
            if (!(ldt == DateTime(gl.y, gl.m, gl.d, rl / 3600, rl / 60 % 60, rl % 60, ms * 1000))) c.fail("local-datetime", "local date-time of " + std::to_string(s) + " in zone " + z + " is " + show(ldt)); }
        c.state(z); c.outcome(o < 0 ? "west" : "east");
    }, false, "105 zone offsets x 720 date-times, both directions, and the present time at 21 instants"});
    sc.push_back({"zone-texts", [](Ctx& c) {
        static const std::vector<std::string> bad{"", "x", "+", "UTC+99:99:99x", ":nowhere", "1"};
        int k = c.choose((int)bad.size()); setenv("TZ", "", 1);
        FLAGS_timezone_name = bad[k]; std::string s0 = bad[k]; c.step();
        auto st = Timezone::initializeGlobalTimezone();
        if (k == 0 || k == 4) { if (st.ok()) c.fail("zone-text", "the zone '" + s0 + "' is accepted"); }   // what other malformed texts mean is left to the zone library
        c.outcome(st.ok() ? "accepted" : "rejected"); c.state(s0);
    }, false, "6 malformed zone texts"});
    return mc::run(argc, argv, "C22", sc, {"The wall clock and time() are virtual.", "Zones are fixed offsets in the documented UTC+hh:mm:ss form; zone texts are parsed by Boost."});
}
