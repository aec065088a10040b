// C14: slow-operation tracker under a controlled clock.
#include "mc.h"
#include "common/base/SlowOpTracker.h"
using mc::Ctx;
extern void (*mc_log_hook)(int, const char*);

static int64_t g_us;      // the virtual clock, microseconds
namespace nebula { namespace time {
int64_t WallClock::slowNowInSec() { return g_us / 1000000; }
int64_t WallClock::fastNowInSec() { return g_us / 1000000; }
int64_t WallClock::slowNowInMilliSec() { return g_us / 1000; }
int64_t WallClock::fastNowInMilliSec() { return g_us / 1000; }
int64_t WallClock::slowNowInMicroSec() { return g_us; }
int64_t WallClock::fastNowInMicroSec() { return g_us; }
}}
static std::vector<std::string>& logged() { static std::vector<std::string> v; return v; }
static void onLog(int, const char* m) { logged().push_back(m); }

int main(int argc, char** argv) {
    FLAGS_minloglevel = 0; mc_log_hook = onLog;
    std::vector<mc::Scenario> sc;
    auto body = [](Ctx& c, bool multi) {
        static const std::vector<int64_t> starts = {0, 1, 1600000000000LL, 9007199254740993LL};
        static const std::vector<int64_t> steps = {0, 50, 51, 10, -1, -60, 1, 49, 3000000000LL, 100};
        static const std::vector<int64_t> thr = {0, 1, 10, 50, 51, 100, -1, -1000, 2999999999LL, 3000000000LL, INT64_MAX};
        static const std::vector<int64_t> flags = {50, 0, 1, 100, -1, 3000000000LL};
        int64_t start = multi ? starts[c.choose(2)] : c.pick(starts);
        FLAGS_slow_op_threshhold_ms = multi ? flags[c.choose(3)] : c.pick(flags);
        int64_t now = start; g_us = now * 1000;
        nebula::SlowOpTracker t;
        int64_t other = now; nebula::SlowOpTracker* t2 = nullptr; std::unique_ptr<nebula::SlowOpTracker> hold;
        int n = multi ? (c.thorough() ? 4 : 3) : 2;
        for (int i = 0; i < n; ++i) {
            int64_t d = steps[c.choose(multi ? (c.thorough() ? 10 : 6) : (int)steps.size())];
            now += d; if (now < 0) now = 0;
            g_us = now * 1000;
            if (multi && i == 0 && c.flip()) { hold.reset(new nebula::SlowOpTracker()); t2 = hold.get(); other = now; }
            int64_t el = std::max<int64_t>(0, now - start);
            if (multi && c.choose(3) == 0) { t = nebula::SlowOpTracker(t); }     // copies keep the start
            int ti = multi && i + 1 < n ? 0 : c.choose((multi ? 5 : (int)thr.size()) + 1);
            bool got; int64_t want_thr;
            if (ti == 0) { got = t.slow(); want_thr = FLAGS_slow_op_threshhold_ms; }
            else { got = t.slow(thr[ti - 1]); want_thr = thr[ti - 1] > 0 ? thr[ti - 1] : FLAGS_slow_op_threshhold_ms; }
            MC_CHECK(c, got == (el > want_thr), "slow", "slow(" << (ti ? std::to_string(thr[ti - 1]) : "") << ") is " << got << " after " << now - start << " ms with a default of " << FLAGS_slow_op_threshhold_ms);
            if (t2) { int64_t e2 = std::max<int64_t>(0, now - other); MC_CHECK(c, t2->slow(10) == (e2 > 10), "slow", "a second tracker disagrees after " << e2 << " ms"); }
            logged().clear();
            bool oddText = multi ? i & 1 : c.flip();
            std::string pre = oddText ? "" : "pre%s: ", msg = oddText ? std::string(300, 'm') : "the message";
            t.output(pre, msg);
            MC_CHECK(c, logged().size() == 1, "log", "output() wrote " << logged().size() << " messages");
            const std::string l = logged()[0];
            size_t at = l.find(msg);
            MC_CHECK(c, l.compare(0, pre.size(), pre) == 0 && at != std::string::npos && at >= pre.size(), "log", "prefix or message missing: " << l);
            // the only number between prefix and message is the elapsed time
            std::string mid = l.substr(pre.size(), at - pre.size()), num; int groups = 0;
            for (size_t k = 0; k < mid.size();) if (isdigit((unsigned char)mid[k])) { ++groups; num.clear(); if (k && mid[k - 1] == '-') num = "-"; while (k < mid.size() && isdigit((unsigned char)mid[k])) num += mid[k++]; } else ++k;
            MC_CHECK(c, groups == 1 && num == std::to_string(el), "log", "the log message gives " << num << " ms, elapsed are " << el << ": " << l);
            c.step(2);
            c.outcome(std::to_string(got));
        }
        c.state(std::to_string(now - start) + "/" + std::to_string(FLAGS_slow_op_threshhold_ms));
        FLAGS_slow_op_threshhold_ms = 50;
    };
    sc.push_back({"single", [body](Ctx& c) { body(c, false); }, false, "4 start times x 6 defaults x 2 rounds of 10 clock steps x 12 thresholds x 2 texts"});
    sc.push_back({"histories", [body](Ctx& c) { body(c, true); }, false, "3 rounds of 7 clock steps x 6 thresholds with copies and a second tracker", 20, true});
    sc.push_back({"default", [](Ctx& c) {
        int64_t e = c.choose(200);
        g_us = 5000; nebula::SlowOpTracker t; g_us = 5000 + e * 1000;
        MC_CHECK(c, FLAGS_slow_op_threshhold_ms == 50, "default", "the configured default is " << FLAGS_slow_op_threshhold_ms << " ms, documented are 50");
        MC_CHECK(c, t.slow() == (e > 50), "default", "slow() is wrong after " << e << " ms"); c.step(); c.state(std::to_string(e)); c.outcome(std::to_string(e > 50));
    }, true, "default threshold, 0..199 ms"});
    return mc::run(argc, argv, "C14", sc, {"the clock the tracker reads is replaced by a virtual one; the clock itself is C10"});
}
