// C41: statistics: what was recorded, read by index, by name, by text and all at once; histories in virtual time, texts of a grammar, and every interleaving of recording threads.
#include "common/base/Base.h"
#include "mc.h"
#include "vsched.h"
#include "common/stats/StatsManager.h"
#include <sys/mman.h>
#include <cmath>
#include <map>
#include <thread>
using mc::Ctx;
using nebula::stats::CounterId;
using nebula::stats::StatsManager;
using std::string;
using std::vector;
using TR = StatsManager::TimeRange; using SM = StatsManager::StatsMethod;
#define NT __attribute__((no_sanitize("thread")))
static int64_t g_now = 1000000;
// the clock is the harness's
namespace nebula { namespace time {
NT int64_t WallClock::slowNowInSec() { return g_now; } NT int64_t WallClock::fastNowInSec() { return g_now; }
NT int64_t WallClock::slowNowInMilliSec() { return g_now * 1000; } NT int64_t WallClock::fastNowInMilliSec() { return g_now * 1000; }
NT int64_t WallClock::slowNowInMicroSec() { return g_now * 1000000; } NT int64_t WallClock::fastNowInMicroSec() { return g_now * 1000000; }
} }
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal { string m; };
static void throwFatal(const char*, int, const char* m) { throw Fatal{m}; }
static const TR RANGE[] = {TR::FIVE_SECONDS, TR::ONE_MINUTE, TR::TEN_MINUTES, TR::ONE_HOUR}; static const int SECS[] = {5, 60, 600, 3600};
static const SM METHOD[] = {SM::SUM, SM::COUNT, SM::AVG, SM::RATE}; static const char* MNAME[] = {"sum", "count", "avg", "rate"};

// ---- the record and what it says
struct Counter { string name; bool histo = false, known = false; int64_t size = 0, min = 0, max = 0; std::set<string> listed; int index = 0; vector<std::pair<int64_t, int64_t>> added; };
static vector<int64_t> within(const Counter& k, int secs) { vector<int64_t> v; for (auto& a : k.added) if (g_now - a.first < secs) v.push_back(a.second); return v; }
static int64_t expectStat(const Counter& k, int secs, int method) {
    auto v = within(k, secs); int64_t sum = 0; for (auto x : v) sum += x;
    switch (method) {
        case 0: return sum; case 1: return v.size(); case 2: return v.empty() ? 0 : (int64_t)((double)sum / v.size());
        default: { if (k.added.empty()) return 0; int64_t el = std::min<int64_t>(secs, g_now - k.added[0].first + 1); return (int64_t)((double)sum / el); }
    }
}
static int64_t expectPct(const Counter& k, int secs, double pct) {
    auto v = within(k, secs); if (v.empty()) return 0; std::sort(v.begin(), v.end());
    int64_t x = v[std::min(v.size() - 1, (size_t)(pct / 100 * v.size()))];
    return x < k.min ? k.min : x >= k.max ? k.max : k.min + (x - k.min) / k.size * k.size + k.size / 2;
}
static std::map<string, double> PCTS = {{"p95", 95}, {"p99", 99}, {"p50", 50}, {"p9999", 99.99}, {"p5", 5}, {"p999", 99.9}, {"p999999", 99.9999}, {"p00", 0}, {"p05", 5}, {"p123456", 12.3456}};
// a text that is followed by unreadable memory
struct Edge { char* base; size_t n; Edge() { base = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + 4096, 4096, PROT_NONE); } ~Edge() { munmap(base, 8192); }
    folly::StringPiece put(const string& s) { char* p = base + 4096 - s.size(); memcpy(p, s.data(), s.size()); return folly::StringPiece(p, p + s.size()); } };
static string show(const nebula::StatusOr<int64_t>& s) { return s.ok() ? std::to_string(s.value()) : "error: " + s.status().toString(); }
static void same(Ctx& c, const nebula::StatusOr<int64_t>& got, int64_t want, const string& what) { if (!got.ok() || got.value() != want) c.fail("value", what + " is " + show(got) + ", expected " + std::to_string(want)); }
static void lower(string& s) { for (auto& ch : s) ch = tolower(ch); }

// ---- everything there is to read
static void readAll(Ctx& c, vector<Counter>& ks) {
    Edge e;
    for (auto& k : ks) for (int r = 0; r < 4; ++r) {
        if (!k.known) { MC_CHECK(c, !StatsManager::readStats(k.name, RANGE[r], SM::SUM).ok() && !StatsManager::readHisto(k.name, RANGE[r], 95).ok() && !StatsManager::readValue(e.put(k.name + ".sum." + std::to_string(SECS[r]))).ok(), "unknown", "a counter never registered can be read"); continue; }
        string in = " over " + std::to_string(SECS[r]) + " s of " + (k.histo ? "a histogram" : "a counter");
        for (int m = 0; m < 4; ++m) {
            int64_t want = expectStat(k, SECS[r], m); string what = MNAME[m] + in;
            same(c, StatsManager::readStats(CounterId(k.index), RANGE[r], METHOD[m]), want, what + " by index");
            same(c, StatsManager::readStats(k.name, RANGE[r], METHOD[m]), want, what + " by name");
            same(c, StatsManager::readValue(e.put(k.name + "." + MNAME[m] + "." + std::to_string(SECS[r]))), want, what + " by text");
        }
        for (auto& p : PCTS) {
            string what = p.first + in; auto a = StatsManager::readHisto(CounterId(k.index), RANGE[r], p.second), b = StatsManager::readHisto(k.name, RANGE[r], p.second), t = StatsManager::readValue(e.put(k.name + "." + p.first + "." + std::to_string(SECS[r])));
            if (!k.histo) { MC_CHECK(c, !a.ok() && !b.ok() && !t.ok(), "no-percentile", what << ", which has no percentiles, is " << show(a) << ", " << show(b) << ", " << show(t)); continue; }
            int64_t want = expectPct(k, SECS[r], p.second); same(c, a, want, what + " by index"); same(c, b, want, what + " by name"); same(c, t, want, what + " by text");
        }
    }
    folly::dynamic all = folly::dynamic::array(); StatsManager::readAllValue(all); std::map<string, int64_t> got;
    for (auto& x : all) for (auto& kv : x.items()) { auto name = kv.first.asString(); int64_t v = kv.second.asInt(); MC_CHECK(c, !got.count(name) || got[name] == v, "list-twice", name << " is listed with two values"); got[name] = v; }
    std::map<string, int64_t> want;
    for (auto& k : ks) if (k.known) for (auto& l : k.listed) for (int r = 0; r < 4; ++r) {
        int m = -1; for (int i = 0; i < 4; ++i) if (l == MNAME[i]) m = i;
        if (m < 0 && !k.histo) continue;
        want[k.name + "." + l + "." + std::to_string(SECS[r])] = m >= 0 ? expectStat(k, SECS[r], m) : expectPct(k, SECS[r], PCTS[l]);
    }
    for (auto& w : want) MC_CHECK(c, got.count(w.first) && got[w.first] == w.second, "list", "the list of all values has " << w.first << (got.count(w.first) ? " as " + std::to_string(got[w.first]) : " not") << ", expected " << w.second);
    for (auto& x : got) MC_CHECK(c, want.count(x.first), "list-extra", "the list of all values has " << x.first << ", which was not asked for");
}
static std::set<string> parse(const string& l) {
    std::set<string> r; string w; for (char ch : l + ",") { if (ch != ',') { w += ch; continue; } size_t b = w.find_first_not_of(" \t"), e = w.find_last_not_of(" \t"); w = b == string::npos ? "" : w.substr(b, e - b + 1); lower(w); for (auto* m : MNAME) if (w == m) r.insert(w); if (PCTS.count(w)) r.insert(w); w.clear(); }
    return r;
}
static void reg(Ctx& c, Counter& k, bool histo, const string& list) {
    bool again = k.known; Edge e;
    CounterId id = histo ? StatsManager::registerHisto(e.put(k.name), 10, 0, 100, list) : StatsManager::registerStats(e.put(k.name), list);
    MC_CHECK(c, id.valid() && (histo ? id.index() < 0 : id.index() > 0), "index", "a new " << (histo ? "histogram" : "counter") << " has index " << id.index());
    if (again) MC_CHECK(c, id.index() == k.index, "again", "registering an existing name again returned index " << id.index() << " in place of " << k.index);
    k.known = true; k.histo = histo; k.size = 10; k.min = 0; k.max = 100; k.index = id.index(); k.listed = parse(list);
}
static void history(Ctx& c, int len) {
    static const char* N[] = {"register counter a", "register counter b", "register histogram h", "register it again otherwise", "register histogram g", "add 7 to a", "add -30 to b", "add 42 to h", "add 1000 to h", "add 3 to g", "1 s later", "5 s later", "55 s later", "9 min later", "1 h later"};
    vector<Counter> ks(4); ks[0].name = "a"; ks[1].name = "b"; ks[2].name = "h"; ks[3].name = "g";
    auto add = [&](int k, int64_t v) { if (!ks[k].known) throw mc::Abandon(); StatsManager::addValue(CounterId(ks[k].index), v); ks[k].added.emplace_back(g_now, v); };
    for (int i = 0; i < len; ++i) {
        int op = c.choose(15); if (c.logging()) c.log(N[op]); c.step();
        switch (op) {
            case 0: if (ks[0].known) throw mc::Abandon(); reg(c, ks[0], false, "sum, AVG"); break;
            case 1: if (ks[1].known) throw mc::Abandon(); reg(c, ks[1], false, "rate,p95,bogus"); break;
            case 2: if (ks[2].known) throw mc::Abandon(); reg(c, ks[2], true, " Count,P95, p9999,p,,"); break;
            case 3: { int k = ks[2].known ? 2 : 0; if (!ks[k].known) throw mc::Abandon(); reg(c, ks[k], k == 2, "count, p50"); break; }
            case 4: if (ks[3].known) throw mc::Abandon(); reg(c, ks[3], true, ""); break;
            case 5: add(0, 7); break; case 6: add(1, -30); break; case 7: add(2, 42); break; case 8: add(2, 1000); break; case 9: add(3, 3); break;
            case 10: g_now += 1; break; case 11: g_now += 5; break; case 12: g_now += 55; break; case 13: g_now += 540; break; case 14: g_now += 3600; break;
        }
    }
    readAll(c, ks); c.outcome(std::to_string(ks[0].added.size() + ks[1].added.size() + ks[2].added.size() + ks[3].added.size()));
}
// ---- texts
static void texts(Ctx& c) {
    static const vector<string> name = {"a", "h", "none", "A", "", "a b"}, method = {"sum", "SUM", "Count", "avg", "rAte", "p95", "P95", "p5", "p9999", "p999999", "p9999999", "p99999999999", "p", "pp", "p9x", "px9", "p-5", "p+5", "pnan", "pinf", "p1e5", "p 5", "t99", "avg1", "su", "sums", "95", ""}, range = {"5", "60", "600", "3600", "05", "6", "36000", "5s", "-5", "", "60 1"};
    vector<Counter> ks(2); ks[0].name = "a"; ks[1].name = "h"; reg(c, ks[0], false, "sum"); reg(c, ks[1], true, "sum");
    for (int v : {3, 14, 15, 92, 65, 35, 89, 79}) for (auto& k : ks) { StatsManager::addValue(CounterId(k.index), v + (k.histo ? 1 : 0)); k.added.emplace_back(g_now, v + (k.histo ? 1 : 0)); if (v == 65) g_now += 7; }
    const string n = c.pick(name), m = c.pick(method); Edge e;
    for (auto& r : range) for (int shape = 0; shape < 6; ++shape) {
        string t = n + "." + m + "." + r; bool formed = shape == 0;
        switch (shape) { case 1: t = n + "." + m; break; case 2: t += ".60"; break; case 3: t = m + "." + n + "." + r; break; case 4: t = n + m + r; break; case 5: t = "x." + t; break; }
        string low = m; lower(low); int mi = -1, ri = -1; for (int i = 0; i < 4; ++i) { if (low == MNAME[i]) mi = i; if (r == std::to_string(SECS[i])) ri = i; }
        Counter* k = n == "a" ? &ks[0] : n == "h" ? &ks[1] : nullptr; bool good = formed && k && ri >= 0 && (mi >= 0 || (k->histo && PCTS.count(low)));
        // empty parts may be overlooked: then the other parts have to make sense
        if (shape != 0 && (n.empty() || m.empty() || r.empty())) continue;
        c.step(); auto got = StatsManager::readValue(e.put(t));
        MC_CHECK(c, got.ok() == good, good ? "text-refused" : "text-taken", "reading \"" << t << "\" gives " << show(got));
        if (good) same(c, got, mi >= 0 ? expectStat(*k, SECS[ri], mi) : expectPct(*k, SECS[ri], PCTS[low]), "\"" + t + "\"");
        c.outcome(good ? "value" : "error");
    }
}
static void lists(Ctx& c) {
    static const vector<string> part = {"sum", " COUNT ", "avg", "Rate", "p95", " P9999", "p", "pnan", "p-5", "p9x", "foo", "", " ", "p9999999", "p00", "sum"};
    vector<Counter> ks(2); ks[0].name = "a"; ks[1].name = "h"; bool histo = c.flip(), again = c.flip(); string l = c.pick(part); int n = c.choose(3); for (int i = 0; i < n; ++i) l += "," + c.pick(part);
    if (c.logging()) c.log("list \"" + l + "\"");
    if (again) reg(c, ks[histo], histo, "avg,p99"); reg(c, ks[histo], histo, l);
    StatsManager::addValue(CounterId(ks[histo].index), 42); ks[histo].added.emplace_back(g_now, 42); StatsManager::addValue(CounterId(ks[histo].index)); ks[histo].added.emplace_back(g_now, 1);
    c.step(); readAll(c, ks); c.outcome(std::to_string(ks[histo].listed.size()));
}
static void ids(Ctx& c) {
    mc_fatal_hook = throwFatal; int a = c.choose(4) - 1, how = c.choose(4), b = c.choose(4) - 1; c.step();
    int ia = a == 2 ? INT32_MAX : a, ib = b == 2 ? INT32_MIN : b; CounterId x(ia); MC_CHECK(c, CounterId().index() == 0 && !CounterId().valid(), "id", "a new id is valid"); MC_CHECK(c, x.index() == ia && x.valid() == (ia != 0), "id", "an id made from " << ia << " has index " << x.index()); CounterId y(ib); bool died = false;
    try { if (how == 0) x = y; else if (how == 1) x = ib; else if (how == 2) { CounterId z(y); x = z; } else StatsManager::addValue(CounterId(0), 1); } catch (const Fatal&) { died = true; }
    if (how == 3) { MC_CHECK(c, died, "id-add", "a value is added to no counter"); return; }
    bool bad = ia != 0 || ib == 0; MC_CHECK(c, died == bad, "id-assign", "assigning " << ib << " to an id of " << ia << (died ? " is refused" : " is allowed")); MC_CHECK(c, x.index() == (bad ? ia : ib), "id-assign", "an id of " << ia << " assigned " << ib << " has index " << x.index());
    MC_CHECK(c, !StatsManager::readStats(CounterId(), TR::ONE_MINUTE, SM::SUM).ok() && !StatsManager::readHisto(CounterId(), TR::ONE_MINUTE, 50).ok(), "id-none", "no counter can be read");
    c.outcome(died ? "refused" : "allowed");
}
// ---- threads
static void threads(Ctx& c, int n, int preempt) {
    int kind = c.choose(3, "counter, histogram, one each"), readers = c.choose(3, "read: at the end, meanwhile by index, meanwhile by name and text"); mc::sched::Opts o; o.preemptions = preempt;
    mc::sched::run(c, o, [&] {
        vector<Counter> ks(2); { mc::sched::IgnoreScope s; ks[0].name = "a"; ks[1].name = "h"; } reg(c, ks[0], false, "sum"); reg(c, ks[1], true, "sum"); int ia = ks[0].index, ih = ks[1].index;
        vector<std::thread> th; vector<int64_t> seen;
        for (int i = 0; i < n; ++i) th.emplace_back([&, i] { for (int j = 0; j < 2; ++j) StatsManager::addValue(CounterId(kind == 0 || (kind == 2 && i % 2 == 0) ? ia : ih), 10 + i); c.step(); });
        if (readers) { string nm = kind == 1 ? "h" : "a"; for (int j = 0; j < 2; ++j) { auto s = readers == 1 ? StatsManager::readStats(CounterId(kind == 1 ? ih : ia), TR::ONE_MINUTE, SM::COUNT) : j ? StatsManager::readValue(nm + ".count.60") : StatsManager::readStats(nm, TR::ONE_MINUTE, SM::COUNT); seen.push_back(s.ok() ? s.value() : -1); } }
        for (auto& t : th) t.join();
        for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) ks[kind == 0 || (kind == 2 && i % 2 == 0) ? 0 : 1].added.emplace_back(g_now, 10 + i);
        for (size_t i = 0; i < seen.size(); ++i) MC_CHECK(c, seen[i] >= (i ? seen[i - 1] : 0) && seen[i] <= 2 * n, "meanwhile", "reading the count while " << n << " threads add gave " << seen[i]);
        mc::sched::IgnoreScope s; readAll(c, ks); c.outcome(seen.empty() ? "end" : std::to_string(seen[0]));
    });
}
int main(int argc, char** argv) {
    vector<mc::Scenario> sc;
    sc.push_back({"history", [](Ctx& c) { history(c, c.thorough() ? 6 : 5); }, true, "all sequences of 5 (6) of 15 operations: registering counters and histograms, again, adding, and time passing 1 s to 1 h; everything then read by index, name, text and list"});
    sc.push_back({"texts", texts, true, "all texts of 6 names, 28 methods, 11 ranges and 6 shapes"});
    sc.push_back({"lists", lists, true, "all lists of up to 3 of 16 methods and percentiles, valid and not, for counters and histograms, at first or again"});
    sc.push_back({"ids", ids, true, "all pairs of 4 indexes assigned in 3 ways"});
    sc.push_back({"threads", [](Ctx& c) { int n = 2 + c.choose(2); threads(c, n, c.thorough() ? (n == 2 ? 3 : 2) : (n == 2 ? 2 : 1)); }, true, "2 and 3 threads adding twice each to a counter, a histogram or both, read at the end or meanwhile, 2 and 1 (3 and 2) preemptions"});
    return mc::run(argc, argv, "C41", sc, {"folly's time series and histograms are a stand-in that answers from the plain record; the wall clock is the harness's", "registering happens before other threads use the counters, as the interface demands; a name is registered again only as what it is"});
}
