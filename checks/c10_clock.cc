// C10: wall clock over virtual time and a virtual time stamp counter, under the controlled scheduler.
#include "mc.h"
#include "vsched.h"
#include "common/time/WallClock.h"
#include "common/time/detail/TscHelper.h"
#include <thread>
#include <memory>
using mc::Ctx;
using nebula::time::WallClock;
extern uint64_t (*mc_rdtsc_hook)();
#define NT __attribute__((no_sanitize("thread")))

static double g_mhz; static uint64_t g_base; static int64_t g_t0;
NT static uint64_t vtsc() { long double d = (long double)(mc::sched::now_ns() - g_t0); return g_base + (uint64_t)(d * g_mhz / 1000.0L); }
NT static void machine(int64_t t0, double mhz, uint64_t base) { g_t0 = t0; g_mhz = mhz; g_base = base; mc_rdtsc_hook = vtsc; }

NT static std::string num(__int128 v) { return std::to_string((long long)v); }
// `tol_ns`: what calibration accuracy and delays between clock reads allow
NT static void agree(Ctx& c, const char* what, int64_t got, int64_t unit, int64_t lo_ns, int64_t hi_ns, double tol_ns) {
    long double v = (long double)got * unit;
    long double slack = tol_ns + 1.6L * unit;      // start truncated, elapsed rounded
    if (v < lo_ns - slack || v > hi_ns + slack)
        c.fail(std::string("fast-") + what, std::string("the fast clock gives ") + std::to_string(got) + " " + what + " at " + num(hi_ns) + " ns since the epoch");
}
NT static int64_t exact(int64_t ns, int64_t unit) { return ns / unit; }

static void readAll(Ctx& c, int64_t t0, double relAcc, int64_t jitter) {
    struct { const char* n; int64_t (*fast)(); int64_t (*slow)(); int64_t unit; } u[] = {
        {"seconds", WallClock::fastNowInSec, WallClock::slowNowInSec, 1000000000LL},
        {"milliseconds", WallClock::fastNowInMilliSec, WallClock::slowNowInMilliSec, 1000000LL},
        {"microseconds", WallClock::fastNowInMicroSec, WallClock::slowNowInMicroSec, 1000LL}};
    for (auto& x : u) {
        int64_t b = mc::sched::now_ns();
        int64_t f = x.fast();
        int64_t e = mc::sched::now_ns();
        agree(c, x.n, f, x.unit, b, e, relAcc * (double)(e - t0 + 1) + 4.0 * jitter);
        b = mc::sched::now_ns();
        int64_t s = x.slow();
        e = mc::sched::now_ns();
        if (s < exact(b, x.unit) || s > exact(e, x.unit)) c.fail(std::string("slow-") + x.n, "the slow clock gives " + std::to_string(s) + " " + x.n + " at " + std::to_string(e) + " ns since the epoch");
        c.step(2);
    }
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    static const int64_t G = 1000000000LL;
    sc.push_back({"agreement", [](Ctx& c) {
        static const std::vector<double> mhz = {1000, 2400, 2399.987, 1000.9, 3599.5, 5200.25};
        static const std::vector<int64_t> starts = {1600000000LL * G, 1599999999LL * G + 999999999, 1735689599LL * G + 500000000, 4294967295LL * G + 999000001};
        static const std::vector<uint64_t> bases = {0, 987654321987ULL, 1ULL << 61};
        static const std::vector<int64_t> waits = {0, 999, 1499999, 499000000, 2000000001LL, 3600 * G, 86400 * 30 * G};
        static const std::vector<int64_t> jit = {0, 37, 900};
        double m = c.pick(mhz); int64_t s = c.pick(starts); uint64_t b = c.pick(bases); int64_t j = c.pick(jit);
        mc::sched::Opts o; o.preemptions = 0; o.start_ns = s; o.pool = false; o.daemon_ok = true; o.max_steps = 30000000; o.races = false;
        std::vector<int64_t> w; int n = c.thorough() ? 3 : 2;
        for (int i = 0; i < n; ++i) w.push_back(i + 1 < n && !c.thorough() ? waits[c.choose(5)] : waits[c.choose(waits.size() - 1 + (c.thorough() && i + 1 == n))]);
        MC_LOG(c, m << " MHz, start " << s << ", counter " << b << ", " << j << " ns per clock read");
        machine(s, m, b);
        // calibration truncates the rate to whole MHz, and measures it over an interval whose ends are uncertain by j
        double rel = 1.05 / m + 4.0 * j / 1e7;
        mc::sched::run(c, o, [&] {
            mc::sched::set_clock_step(j);
            readAll(c, s, rel, j);
            for (int64_t x : w) {
                if (x) std::this_thread::sleep_for(std::chrono::nanoseconds(x));
                readAll(c, s, rel, j);
            }
        });
        c.state(std::to_string(m) + "/" + std::to_string(w.back())); c.outcome(std::to_string(m));
    }, true, "6 counter rates x 4 start times x 3 counter values x 3 read delays x pairs of waits up to an hour (triples up to 30 days), background calibration included"});
    sc.push_back({"slow", [](Ctx& c) {
        static const std::vector<int64_t> frac = {0, 1, 999, 1000, 999999, 1000000, 500000000, 999999999};
        static const std::vector<int64_t> sec = {1, 1590000000LL + 200, 1600000000LL, 2147483647LL, 2147483648LL, 4294967296LL, 9000000000LL};
        int64_t s = c.pick(sec) * G + c.pick(frac);
        mc::sched::Opts o; o.preemptions = 0; o.start_ns = s; o.pool = false;
        mc::sched::run(c, o, [&] {
            int64_t a = WallClock::slowNowInSec(), b = WallClock::slowNowInMilliSec(), d = WallClock::slowNowInMicroSec();
            MC_CHECK(c, a == s / G, "slow-seconds", "slowNowInSec gives " << a << " at " << s << " ns");
            MC_CHECK(c, b == s / 1000000, "slow-milliseconds", "slowNowInMilliSec gives " << b << " at " << s << " ns");
            MC_CHECK(c, d == s / 1000, "slow-microseconds", "slowNowInMicroSec gives " << d << " at " << s << " ns");
        });
        c.step(3); c.state(std::to_string(s)); c.outcome("slow");
    }, false, "7 x 8 instants"});
    sc.push_back({"first-use", [](Ctx& c) {
        // several threads use the clock for the first time at once, and again after the calibrator ran
        int n = 2;
        const int64_t s = 1600000000LL * G + 123456789; const double m = 2500;
        machine(s, m, 1ULL << 45);
        mc::sched::Opts o;  o.start_ns = s; o.pool = false; o.daemon_ok = true;
        int k0 = c.choose(3);
        bool again = c.flip();
        o.preemptions = c.thorough() ? 2 : again ? 1 : 2; o.timeouts = again ? (c.thorough() ? 1 : 0) : 1;
        mc::sched::run(c, o, [&] {
            auto one = [&](int k) {
                int64_t f, unit; const char* nm;
                int64_t b = mc::sched::now_ns();
                if (k == 0) { f = WallClock::fastNowInMicroSec(); unit = 1000; nm = "microseconds"; }
                else if (k == 1) { f = WallClock::fastNowInMilliSec(); unit = 1000000; nm = "milliseconds"; }
                else { f = WallClock::fastNowInSec(); unit = G; nm = "seconds"; }
                int64_t e = mc::sched::now_ns();
                agree(c, nm, f, unit, b, e, 5e-4 * (e - s));
            };
            std::vector<std::thread> t;
            for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
                one((k0 + i) % 3);
                if (again) { std::this_thread::sleep_for(std::chrono::milliseconds(i == 0 ? 1995 : 2000)); one((k0 + i) % 3); }
            });
            for (auto& x : t) x.join();
        });
        c.state(std::to_string(k0) + (again ? "a" : "o")); c.outcome(std::to_string(k0));
    }, true, "2 threads: first use (up to 2 preemptions, 1 early timer), and use around a background calibration (1 (2) preemptions, 0 (1) early timers), all interleavings, data races included"});
    return mc::run(argc, argv, "C10", sc, {"the system clock is not stepped after first use", "the counter runs at a constant rate of at least 1 GHz and is synchronous over cores, as the code requires"});
}
