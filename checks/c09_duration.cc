// C09: stopwatch histories over a virtual time stamp counter.
#include "mc.h"
#include "common/time/Duration.h"
#include "common/time/detail/TscHelper.h"
#include <csetjmp>
#include <pthread.h>
#include <time.h>
using mc::Ctx;
using nebula::time::Duration;
extern uint64_t (*mc_rdtsc_hook)();

// ---- virtual machine: one clock in nanoseconds, a counter running at a fixed rate, a captured thread
static bool g_virtual = false;
static int64_t g_ns = 1600000000LL * 1000000000LL + 1;
static uint64_t g_tickBase = 0, g_ticksPerUs = 2000;
static int64_t g_ns0 = g_ns;
static uint64_t vtsc() { int64_t d = g_ns - g_ns0; return g_tickBase + (uint64_t)(d / 1000) * g_ticksPerUs + (uint64_t)(d % 1000) * g_ticksPerUs / 1000; }
static void* (*g_thread)(void*) = nullptr; static void* g_threadArg = nullptr;
static jmp_buf g_back; static int g_sleeps = 0; static bool g_inThread = false;
static void passed(int64_t ns) {
    if (g_inThread && g_sleeps++ > 0) longjmp(g_back, 1);     // the calibrator did one round
    if (!g_inThread) g_ns += ns;
}
extern "C" {
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!g_virtual) { extern long syscall(long, ...); return (int)syscall(228, k, ts); }
    int64_t v = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? g_ns : g_ns - 1599000000000000000LL;
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
int usleep(useconds_t us) { if (g_virtual) passed(us * 1000LL); return 0; }
unsigned sleep(unsigned s) { if (g_virtual) passed(s * 1000000000LL); return 0; }
int nanosleep(const struct timespec* a, struct timespec*) { if (g_virtual) passed(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec*) { if (g_virtual) passed(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { if (!g_virtual) return 11; g_thread = f; g_threadArg = a; *t = 0x5ca1ab1e; return 0; }
int pthread_detach(pthread_t) { return 0; }
}
static void calibrateOnce() {      // one round of the background calibration, if there is one
    if (!g_thread) return;
    g_inThread = true; g_sleeps = 0;
    if (!setjmp(g_back)) g_thread(g_threadArg);
    g_inThread = false;
}
static void machine(uint64_t base, uint64_t perUs) {
    g_virtual = true; g_tickBase = base; g_ticksPerUs = perUs; g_ns0 = g_ns; mc_rdtsc_hook = vtsc;
    g_ns += 12345;
    nebula::time::TscHelper::readTsc();
}

// ---- reference
struct Ref { bool paused; int64_t acc; int64_t since; int64_t el() const { return acc + (paused ? 0 : g_ns - since); } };

static void compare(Ctx& c, const Duration& d, const Ref& r, const char* who) {
    int64_t ns = r.el();
    struct { const char* n; int64_t got; int64_t unit; } v[] = {{"seconds", (int64_t)d.elapsedInSec(), 1000000000LL}, {"milliseconds", (int64_t)d.elapsedInMSec(), 1000000LL}, {"microseconds", (int64_t)d.elapsedInUSec(), 1000LL}};
    for (auto& x : v) {
        __int128 diff = (__int128)x.got * x.unit - ns; if (diff < 0) diff = -diff;
        MC_CHECK(c, diff < (__int128)x.unit + x.unit / 100, std::string("elapsed-") + x.n, who << ": " << x.got << " " << x.n << " reported after " << ns << " ns of running time");
    }
    MC_CHECK(c, d.isPaused() == r.paused, "paused", who << ": isPaused() is " << d.isPaused());
}
static const std::vector<int64_t> steps = {1500, 999000, 2000000000LL, 700000000LL, 86400LL * 40 * 1000000000LL, 1000};

static void history(Ctx& c, int depth, int nsteps) {
    bool p0 = c.flip();
    Duration a = p0 ? Duration(true) : Duration(); Ref ra{p0, 0, g_ns};
    Duration b(true); Ref rb{true, 0, g_ns};
    compare(c, a, ra, "new");
    int64_t last[3] = {0, 0, 0};
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(8 + nsteps);
        bool pure = false;
        switch (k) {
            case 0: MC_LOG(c, "pause"); a.pause(); if (!ra.paused) { ra.acc = ra.el(); ra.paused = true; } pure = true; break;
            case 1: MC_LOG(c, "resume"); a.resume(); if (ra.paused) { ra.paused = false; ra.since = g_ns; } pure = true; break;
            case 2: MC_LOG(c, "reset"); a.reset(); ra = {false, 0, g_ns}; break;
            case 3: MC_LOG(c, "reset(paused)"); a.reset(true); ra = {true, 0, g_ns}; break;
            case 4: MC_LOG(c, "copy"); b = a; rb = ra; pure = true; break;
            case 5: MC_LOG(c, "other paused/resumed"); if (rb.paused) { b.resume(); rb.paused = false; rb.since = g_ns; } else { b.pause(); rb.acc = rb.el(); rb.paused = true; } pure = true; break;
            case 6: MC_LOG(c, "recalibrate"); calibrateOnce(); pure = true; break;
            case 7: MC_LOG(c, "restore from copy"); a = Duration(b); ra = rb; break;
            default: MC_LOG(c, "wait " << steps[k - 8]); g_ns += steps[k - 8]; pure = true;
        }
        c.step();
        compare(c, a, ra, "a"); compare(c, b, rb, "b");
        int64_t now[3] = {(int64_t)a.elapsedInSec(), (int64_t)a.elapsedInMSec(), (int64_t)a.elapsedInUSec()};
        for (int u = 0; u < 3; ++u) { if (pure) MC_CHECK(c, now[u] >= last[u], "backwards", "a reading went back from " << last[u] << " to " << now[u]); last[u] = now[u]; }
        c.state((ra.paused ? "p" : "r") + std::to_string(ra.el() / 1000) + (rb.paused ? "p" : "r") + std::to_string(rb.el() / 1000));
    }
    c.outcome(std::to_string(ra.paused * 2 + rb.paused) + (ra.el() ? "+" : "0"));
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"histories", [](Ctx& c) {
        static bool once = (machine(1ULL << 52, 2000), true); (void)once;
        history(c, c.thorough() ? 7 : 6, c.thorough() ? 4 : 3);
    }, false, "all histories of 6 (7) of 11 (12) operations on two stopwatches: pause, resume, both resets, copies, background calibration and 3 (4) waiting times, 2 GHz counter"});
    sc.push_back({"rates", [](Ctx& c) {
        static const std::vector<uint64_t> rate = {1000, 1001, 2400, 3000, 5001}; static const std::vector<uint64_t> base = {0, 12345, 1ULL << 40, (1ULL << 62) + 12345};
        uint64_t r = c.pick(rate), b = c.pick(base);
        machine(b, r);
        history(c, c.thorough() ? 4 : 2, 6);
    }, true, "5 counter rates x 4 counter values at start, histories of 2 (4) operations, 6 waiting times up to 40 days"});
    return mc::run(argc, argv, "C09", sc, {"the counter runs at a constant rate of a whole number of ticks per microsecond, so that the calibration is exact", "x86-64: the stopwatch reads the time stamp counter"});
}
