// C35: background workers and their pool: the real code on the real libevent, every interleaving and all of virtual time under the scheduler.
#include "common/base/Base.h"
#include "mc.h"
#include "vsched.h"
#include "common/thread/GenericThreadPool.h"
#include <dlfcn.h>
#include <event2/event.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <map>
#include <set>
#include <thread>
using mc::Ctx;
using nebula::thread::GenericThreadPool;
using nebula::thread::GenericWorker;
using std::string;
using std::vector;
#define NT __attribute__((no_sanitize("thread")))
// found before the first execution: looking a symbol up later would be a step of the first execution only
#define REALS(X) X(epoll_wait) X(eventfd) X(read) X(write) X(close) X(event_base_new) X(event_base_free) X(event_free)
#define X(n) static decltype(&n) real_##n;
REALS(X)
#undef X
__attribute__((constructor(101))) NT static void findReals() {
#define X(n) real_##n = (decltype(&n))dlsym(RTLD_NEXT, #n);
    REALS(X)
#undef X
}
#define REAL(n) auto real = real_##n ? real_##n : (decltype(&n))dlsym(RTLD_NEXT, #n)

// ---- the system under libevent: waiting is done by the scheduler
static bool g_efdFail = false; static int g_efdAt = 0;
struct Ev { bool fd[4096] = {}; int fds = 0; std::set<void*> bases; NT bool has(int f) { return f >= 0 && f < 4096 && fd[f]; } NT void put(int f) { if (f >= 0 && f < 4096) { fd[f] = true; ++fds; } } NT void drop(int f) { if (has(f)) { fd[f] = false; --fds; } } };
static Ev* g_ev = nullptr;
static long g_hb[4096];
extern "C" NT int epoll_wait(int ep, struct epoll_event* e, int n, int ms) {
    REAL(epoll_wait);
    if (!mc::sched::in_model()) return real(ep, e, n, ms);
    auto ready = [ep] { pollfd p{ep, POLLIN, 0}; return poll(&p, 1, 0) > 0; };
    if (ms < 0) mc::sched::block_until(ready, "events"); else if (ms == 0) mc::sched::point(); else mc::sched::block_until_deadline(ready, mc::sched::now_ns() + ms * 1000000LL, "events");
    return real(ep, e, n, 0);
}
extern "C" NT int eventfd(unsigned v, int f) noexcept { REAL(eventfd); if (g_efdAt && --g_efdAt == 0) { errno = EMFILE; return -1; } int fd = real(v, f); if (g_ev) g_ev->put(fd); return fd; }
extern "C" NT ssize_t write(int fd, const void* b, size_t n) { REAL(write); if (!mc::sched::in_model() || !g_ev || !g_ev->has(fd)) return real(fd, b, n); mc::sched::point(); mc::sched::hb_release(&g_hb[fd & 4095]); return real(fd, b, n); }
extern "C" NT ssize_t read(int fd, void* b, size_t n) { REAL(read); if (!mc::sched::in_model() || !g_ev || !g_ev->has(fd)) return real(fd, b, n); mc::sched::point(); auto r = real(fd, b, n); mc::sched::hb_acquire(&g_hb[fd & 4095]); return r; }
extern "C" NT int close(int fd) { REAL(close); if (g_ev) g_ev->drop(fd); return real(fd); }
// events must not outlive their base
extern "C" NT struct event_base* event_base_new() { REAL(event_base_new); auto* b = real(); if (g_ev) { mc::sched::IgnoreScope s; g_ev->bases.insert(b); } return b; }
extern "C" NT void event_base_free(struct event_base* b) { REAL(event_base_free); if (g_ev) { mc::sched::IgnoreScope s; if (!g_ev->bases.erase(b)) mc::ctx().fail("base-twice", "an event base is freed twice"); } real(b); }
extern "C" NT void event_free(struct event* e) { REAL(event_free); if (g_ev && !g_ev->bases.count(event_get_base(e))) mc::ctx().fail("event-after-base", "an event is freed after the event base it belongs to: freed memory is used"); real(e); }

// ---- what happened
struct Boom { int n; };
enum Kind { VALUE, VOID, THROWS, THROWS_OTHER, VOID_THROWS, VOID_OTHER, KINDS };
struct Times { int64_t a[128]; size_t n = 0; NT size_t size() const { return n; } NT bool empty() const { return !n; } NT int64_t operator[](size_t i) const { return a[i]; } NT void push_back(int64_t x) { if (n < 128) a[n++] = x; } };
struct Task { int owner, seq, kind; bool accepted = false, timer = false; int64_t added = 0, due = 0; Times ranAt; int thread = -1; int64_t purged = -1; int running = 0; std::shared_ptr<int> held; };
struct Log { vector<std::unique_ptr<Task>> tasks; vector<Task*> order; bool stopBegan = false, waited = false; int running = 0; std::map<int, int> onThread; };
static Log* g = nullptr;
NT static Task* fresh(int owner, int seq, int kind) { mc::sched::IgnoreScope s; g->tasks.emplace_back(new Task{owner, seq, kind}); auto* t = g->tasks.back().get(); t->added = mc::sched::now_ns(); return t; }
NT static void accepted(Task* t) { t->accepted = !g->stopBegan; }
NT static void stopBegins() { g->stopBegan = true; }
NT static void begin(Task* t) {
    mc::sched::IgnoreScope s; int me = mc::sched::self();
    if (g->waited) mc::ctx().fail("after-wait", "a task runs after the wait for the worker returned");
    t->ranAt.push_back(mc::sched::now_ns()); t->thread = me; ++t->running;
    if (++g->onThread[me] > 1) mc::ctx().fail("nested", "two tasks run on one thread at once");
    g->order.push_back(t); ++g->running;
}
NT static void end(Task* t) { mc::sched::IgnoreScope s; --t->running; --g->running; --g->onThread[t->thread]; }
struct Running { Task* t; explicit Running(Task* x) : t(x) { begin(t); } ~Running() { end(t); } };
static int runTask(Task* t, int ms) {
    Running r(t);
    if (ms) usleep(ms * 1000);
    switch (t->kind) { case THROWS: case VOID_THROWS: throw std::runtime_error("boom " + std::to_string(t->seq)); case THROWS_OTHER: case VOID_OTHER: throw Boom{t->seq}; }
    return 100 + t->owner * 10 + t->seq;
}
static void runVoid(Task* t, int ms) { runTask(t, ms); }
struct Fut { Task* t; bool isVoid; folly::SemiFuture<int> v = folly::SemiFuture<int>(0); folly::SemiFuture<folly::Unit> u = folly::SemiFuture<folly::Unit>(folly::unit); };
template <class W> static Fut submit(W& w, int owner, int seq, int kind, int ms = 0) {
    Fut f; f.t = fresh(owner, seq, kind); f.isVoid = kind == VOID || kind == VOID_THROWS || kind == VOID_OTHER;
    if (f.isVoid) f.u = w.addTask(runVoid, f.t, ms); else f.v = w.addTask([ms](Task* t) { return runTask(t, ms); }, f.t);
    accepted(f.t); return f;
}
template <class W> static Fut delayed(W& w, int owner, int seq, int kind, int ms) {
    Fut f; f.t = fresh(owner, seq, kind); f.t->timer = true; f.t->due = f.t->added + ms * 1000000LL; f.isVoid = kind == VOID || kind == VOID_THROWS || kind == VOID_OTHER;
    if (f.isVoid) f.u = w.addDelayTask(ms, runVoid, f.t, 0); else f.v = w.addDelayTask(ms, [](Task* t) { return runTask(t, 0); }, f.t);
    accepted(f.t); return f;
}
NT static string name(const Task* t) { static const char* K[] = {"task", "void task", "throwing task", "task throwing a number", "throwing void task", "void task throwing a number"}; return string(t->timer ? "delayed " : "") + K[t->kind] + " " + std::to_string(t->seq) + " of submitter " + std::to_string(t->owner); }
// the future of a task that ran, or will never run
static void judgeFuture(Ctx& c, Fut& f) {
    auto* t = f.t; bool ran = !t->ranAt.empty(); string what = name(t);
    bool ready = f.isVoid ? f.u.isReady() : f.v.isReady();
    MC_CHECK(c, ready, "future-open", "the future of " << what << (ran ? " that ran" : " that was given up") << " is not ready");
    int got = -1; string how; try { if (f.isVoid) { std::move(f.u).get(); how = "unit"; } else { got = std::move(f.v).get(); how = "value"; } }
    catch (const std::runtime_error& e) { how = e.what(); } catch (const Boom& b) { how = "boom-number"; got = b.n; } catch (const std::exception& e) { how = string("other: ") + e.what(); } catch (...) { how = "unknown"; }
    if (!ran) { MC_CHECK(c, how != "value" && how != "unit", "future-unrun", "the future of " << what << " that never ran has a value"); return; }
    switch (t->kind) {
        case VALUE: MC_CHECK(c, how == "value" && got == 100 + t->owner * 10 + t->seq, "future-value", "the future of " << what << " gave " << how << " " << got); break;
        case VOID: MC_CHECK(c, how == "unit", "future-value", "the future of " << what << " gave " << how); break;
        case THROWS: case VOID_THROWS: MC_CHECK(c, how == "boom " + std::to_string(t->seq), "future-exception", "the future of " << what << " gave " << how << ", not the exception that was thrown"); break;
        default: MC_CHECK(c, how == "boom-number" && got == t->seq, "future-exception", "the future of " << what << " gave " << how << ", not what was thrown"); break;
    }
}
// tasks of one worker: each accepted one once, on one thread, in order of each submitter
NT static void judgeRuns(Ctx& c, bool oneThread, bool timersToo) {
    mc::sched::IgnoreScope s; int thread = -1; std::map<int, int> last;
    MC_CHECK(c, g->running == 0, "running", "a task is still running after the wait returned");
    for (auto& t : g->tasks) {
        if (t->timer && !timersToo) continue;
        MC_CHECK(c, t->ranAt.size() <= 1, "run-twice", name(t.get()) << " ran " << t->ranAt.size() << " times");
        if (t->accepted && !t->timer) MC_CHECK(c, t->ranAt.size() == 1, "lost", name(t.get()) << " was accepted before the stop and never ran");
    }
    for (auto* t : g->order) {
        MC_CHECK(c, t->thread != 0 && (thread < 0 || !oneThread || t->thread == thread), "thread", name(t) << " ran on thread " << t->thread); thread = t->thread;
        if (!t->timer && oneThread && t->seq >= 0) { MC_CHECK(c, !last.count(t->owner) || last[t->owner] < t->seq, "order", name(t) << " ran after task " << last[t->owner] << " of the same submitter"); last[t->owner] = t->seq; }
    }
}
struct Run { Log log; Ev ev; Run() { g = &log; g_ev = &ev; g_efdAt = 0; } ~Run() { g = nullptr; g_ev = nullptr; } };
#define NEW_RUN Run* run; { mc::sched::IgnoreScope s; run = new Run; } struct Drop { Run* r; NT ~Drop() { mc::sched::IgnoreScope s; delete r; } } drop{run}
NT static void noneLeft(Ctx& c) { mc::sched::IgnoreScope s; MC_CHECK(c, g_ev->bases.empty() && !g_ev->fds, "leak", g_ev->bases.size() << " event bases and " << g_ev->fds << " descriptors are left"); }

// ---- submitters against stopping
static void tasks(Ctx& c, int mode, int kinds, int per, int preempt) {
    // mode 0: stopped when all is submitted; 1: meanwhile; 2: by the destructor; 3: stopped by a task; 4: waited for by another thread before; 5: stopped by two threads
    vector<int> kind; for (int i = 0; i < 2 * per; ++i) kind.push_back(i == 0 || kinds == 1 ? c.choose(kinds) : (kind[0] + i) % kinds);
    mc::sched::Opts o; o.preemptions = preempt;
    mc::sched::run(c, o, [&] {
        NEW_RUN; vector<Fut> futs[2];
        {
            auto w = std::make_unique<GenericWorker>();
            MC_CHECK(c, w->start("worker"), "start", "the first start is refused");
            if (mode == 0) MC_CHECK(c, !w->start("again"), "start-twice", "a second start is accepted");
            vector<std::thread> th; std::thread waiter, stopper; bool waiterOk = false, stopA = false, stopB = false;
            for (int s = 0; s < 2; ++s) th.emplace_back([&, s] { for (int i = 0; i < per; ++i) { futs[s].push_back(submit(*w, s, i, kind[s * per + i])); c.step(); } });
            if (mode == 4) waiter = std::thread([&] { waiterOk = w->wait(); });
            if (mode == 0 || mode == 2 || mode == 4) for (auto& t : th) t.join();
            if (mode == 3) { w->addTask([&] { stopBegins(); stopA = w->stop(); }); }
            else if (mode == 5) { stopBegins(); stopper = std::thread([&] { stopB = w->stop(); }); stopA = w->stop(); stopper.join(); MC_CHECK(c, stopA != stopB, "stop-twice", "two threads stopping a worker were told " << stopA << " and " << stopB); }
            else if (mode != 2) { stopBegins(); stopA = w->stop(); MC_CHECK(c, stopA, "stop", "the first stop is refused"); MC_CHECK(c, !w->stop(), "stop-twice", "a second stop is accepted"); }
            else stopBegins();
            if (mode == 4) { waiter.join(); MC_CHECK(c, waiterOk, "wait", "the wait is refused"); }
            else if (mode != 2) MC_CHECK(c, w->wait(), "wait", "the wait is refused");
            if (mode == 2) w.reset();
            { mc::sched::IgnoreScope s; g->waited = true; }
            if (mode == 1 || mode == 3 || mode == 5) for (auto& t : th) t.join();
            if (w) MC_CHECK(c, !w->wait(), "wait-twice", "a second wait is accepted");
            judgeRuns(c, true, true);
        }
        for (auto& s : futs) for (auto& f : s) judgeFuture(c, f);
        noneLeft(c);
        int ran = 0; for (auto& t : g->tasks) ran += t->ranAt.size(); c.outcome("mode " + std::to_string(mode) + " ran " + std::to_string(ran));
    });
}
// ---- a repeated task added and purged while the worker handles something else
NT static size_t runsOf(Task* t) { return t->ranAt.size(); }
static void purge(Ctx& c, int preempt) {
    int other = c.choose(4, "meanwhile: nothing, a task, a delayed task, another repeated task"), sleep1 = c.pick(vector<int>{0, 25}), how = c.choose(3, "purged: by the submitter, by itself in its first run, twice");
    mc::sched::Opts o; o.preemptions = preempt;
    mc::sched::run(c, o, [&] {
        NEW_RUN;
        {
            GenericWorker w; MC_CHECK(c, w.start(), "start", "the first start is refused");
            auto* t = fresh(0, -1, VOID); t->timer = true; auto* t2 = fresh(1, -1, VOID); t2->timer = true; uint64_t id = 0, id2 = 0; std::atomic<uint64_t> self{999}; bool purged = false;
            std::thread a([&] {
                if (other == 1) { submit(w, 1, 0, VALUE); submit(w, 1, 1, VALUE); } else if (other == 2) delayed(w, 1, 0, VALUE, 0); else if (other == 3) id2 = w.addRepeatTask(10, [t2] { Running r(t2); });
            });
            if (how == 1) { id = w.addRepeatTask(10, [&, t] { Running r(t); if (runsOf(t) == 1) w.purgeTimerTask(self); }); self = id; usleep(60000); purged = runsOf(t) > 0; }
            else { id = w.addRepeatTask(10, [t] { Running r(t); }); if (sleep1) usleep(sleep1 * 1000); w.purgeTimerTask(id); if (how == 2) w.purgeTimerTask(id); purged = true; }
            a.join();
            // two tasks one after the other: the second runs in a round of the worker after the purge
            std::move(submit(w, 2, 0, VALUE).v).get(); std::move(submit(w, 2, 1, VALUE).v).get();
            size_t before = runsOf(t), before2 = runsOf(t2); usleep(45000);
            if (purged) MC_CHECK(c, runsOf(t) == before, "purged-runs", "a repeated task ran " << runsOf(t) - before << " times after its purge had taken effect");
            if (how == 1) MC_CHECK(c, runsOf(t) == 1, "purged-runs", "a repeated task that purged itself in its first run ran " << runsOf(t) << " times");
            if (other == 3) MC_CHECK(c, runsOf(t2) - before2 == 4 || runsOf(t2) - before2 == 5, "other-purged", "another task repeated every 10 ms ran " << runsOf(t2) - before2 << " times in 45 ms");
            if (sleep1 && how != 1) MC_CHECK(c, before == 2, "repeats", "a task repeated every 10 ms ran " << before << " times in 25 ms");
            stopBegins(); w.stop(); w.wait(); { mc::sched::IgnoreScope s; g->waited = true; }
            c.outcome("ran " + std::to_string(runsOf(t)));
        }
        noneLeft(c);
    });
}
// ---- histories of one owner, all of virtual time
static void history(Ctx& c, int len, int preempt) {
    static const char* N[] = {"task", "long task", "delayed 10", "delayed 0", "repeat 10", "purge", "sleep 4", "sleep 35", "throwing delayed 5", "stop"};
    mc::sched::Opts o; o.preemptions = preempt; o.max_steps = 200000;
    vector<int> ops; for (int i = 0; i < len; ++i) { ops.push_back(c.choose(10)); if (c.logging()) c.log(N[ops.back()]); }
    mc::sched::run(c, o, [&] {
        NEW_RUN; vector<Fut> futs; struct Rep { Task* t; uint64_t id; int64_t period, purged, end; }; vector<Rep> reps; std::set<uint64_t> ids; int64_t busy = 0; bool stopped = false;
        auto held = std::make_shared<int>(0);
        {
            auto w = std::make_unique<GenericWorker>(); MC_CHECK(c, w->start("w"), "start", "refused"); int seq = 0;
            for (int op : ops) {
                c.step();
                switch (op) {
                    case 0: futs.push_back(submit(*w, 0, seq, seq % KINDS)); ++seq; break;
                    case 1: futs.push_back(submit(*w, 0, seq++, VALUE, 20)); busy += 20000000; break;
                    case 2: futs.push_back(delayed(*w, 0, seq++, VALUE, 10)); break;
                    case 3: futs.push_back(delayed(*w, 0, seq++, VOID, 0)); break;
                    case 4: { auto* t = fresh(0, -1, VOID); t->timer = true; auto id = w->addRepeatTask(10, [t, held] { Running r(t); }); accepted(t); MC_CHECK(c, ids.insert(id).second, "id", "two repeated tasks have number " << id); reps.push_back({t, id, 10000000, -1, -1}); break; }
                    case 5: if (reps.empty()) { w->purgeTimerTask(777); break; } { auto& r = reps.back(); w->purgeTimerTask(r.id); if (r.purged < 0) r.purged = mc::sched::now_ns(); break; }
                    case 6: usleep(4000); break;
                    case 7: usleep(35000); break;
                    case 8: futs.push_back(delayed(*w, 0, seq++, THROWS, 5)); break;
                    case 9: if (!stopped) { stopBegins(); MC_CHECK(c, w->stop(), "stop", "refused"); stopped = true; for (auto& r : reps) r.end = mc::sched::now_ns(); } else MC_CHECK(c, !w->stop(), "stop-twice", "a second stop is accepted"); break;
                }
            }
            int64_t endAt = mc::sched::now_ns();
            if (!stopped) {   // everything accepted gets its time
                usleep(100000); endAt = mc::sched::now_ns();
                for (auto& f : futs) { MC_CHECK(c, f.t->ranAt.size() == 1, "not-run", name(f.t) << " ran " << f.t->ranAt.size() << " times in 100 ms"); }
                stopBegins(); MC_CHECK(c, w->stop(), "stop", "refused");
            }
            MC_CHECK(c, w->wait(), "wait", "refused"); { mc::sched::IgnoreScope s; g->waited = true; }
            judgeRuns(c, true, false);
            for (auto& f : futs) if (f.t->timer) {
                MC_CHECK(c, f.t->ranAt.size() <= 1, "run-twice", name(f.t) << " ran " << f.t->ranAt.size() << " times");
                if (!f.t->ranAt.empty()) {
                    MC_CHECK(c, f.t->ranAt[0] >= f.t->due, "early", name(f.t) << " ran " << (f.t->due - f.t->ranAt[0]) / 1000 << " us early");
                    MC_CHECK(c, f.t->ranAt[0] <= f.t->due + busy + 3000000, "late", name(f.t) << " ran " << (f.t->ranAt[0] - f.t->due) / 1000 << " us late, the worker being busy " << busy / 1000 << " us in all");
                }
            }
            for (auto& r : reps) {
                auto& at = r.t->ranAt; for (size_t k = 0; k < at.size(); ++k) MC_CHECK(c, at[k] >= r.t->added + (int64_t)(k + 1) * r.period, "repeat-early", "run " << k + 1 << " of a task repeated every 10 ms came after " << (at[k] - r.t->added) / 1000 << " us");
                int64_t until = r.end >= 0 ? r.end : endAt; if (r.purged >= 0) until = std::min(until, r.purged);
                int64_t least = (until - r.t->added - busy - 1000000) / r.period - 1; MC_CHECK(c, !r.t->accepted || (int64_t)at.size() >= least, "repeat-few", "a task repeated every 10 ms ran " << at.size() << " times in " << (until - r.t->added) / 1000 << " us");
                if (r.purged >= 0) for (size_t k = 0; k < at.size(); ++k) MC_CHECK(c, at[k] <= r.purged + busy + 1000000, "purged-runs", "a repeated task ran " << (at[k] - r.purged) / 1000 << " us after its purge");
            }
            w.reset();
        }
        for (auto& f : futs) judgeFuture(c, f);
        MC_CHECK(c, held.use_count() == 1, "held", "a task is kept after the worker is gone");
        noneLeft(c);
        c.outcome(std::to_string(run->log.order.size()));
    });
}
// ---- pools
static void pool(Ctx& c, int preempt) {
    int n = 1 + c.choose(2, "workers"), end = c.choose(3, "end: stop and wait, destructor, stop while submitting"), again = end == 0 ? c.choose(2, "started again") : 0, kind = c.pick(c.thorough() ? vector<int>{VALUE, VOID, THROWS, THROWS_OTHER, VOID_THROWS, VOID_OTHER} : vector<int>{VALUE, VOID_OTHER});
    mc::sched::Opts o; o.preemptions = again ? preempt - 1 : preempt;
    mc::sched::run(c, o, [&] {
        NEW_RUN; vector<Fut> futs[2];
        {
            auto p = std::make_unique<GenericThreadPool>();
            for (int round = 0; round <= again; ++round) {
                MC_CHECK(c, p->start(n, "pool"), "start", "the pool does not start");
                if (round == 0) MC_CHECK(c, !p->start(1), "start-twice", "a second start is accepted");
                std::thread a([&] { futs[0].push_back(submit(*p, 0, 10 * round, kind)); c.step(); });
                if (end == 2) { stopBegins(); p->stop(); a.join(); } else { futs[1].push_back(submit(*p, 1, 10 * round, VALUE)); a.join(); }
                if (end == 0) { MC_CHECK(c, p->stop(), "stop", "the stop is refused"); MC_CHECK(c, p->wait(), "wait", "the wait is refused"); judgeRuns(c, n == 1 && !again, true); }
            }
            stopBegins(); if (end == 2) MC_CHECK(c, p->wait(), "wait", "the wait is refused"); else p.reset();
            { mc::sched::IgnoreScope s; g->waited = true; }
            judgeRuns(c, n == 1 && !again, true);
        }
        for (auto& s : futs) for (auto& f : s) judgeFuture(c, f);
        noneLeft(c);
        c.outcome(std::to_string(n) + " workers, end " + std::to_string(end));
    });
}
static void poolTimers(Ctx& c) {
    int n = 1 + c.choose(3, "workers"), reps = 1 + c.choose(4, "repeated tasks"), which = c.choose(reps, "purged"), fail = c.choose(n + 1, "failing start");
    mc::sched::Opts o; o.preemptions = 0; o.max_steps = 200000;
    mc::sched::run(c, o, [&] {
        NEW_RUN; vector<Fut> futs;
        {
            GenericThreadPool p; g_efdAt = fail; bool ok = p.start(n); g_efdAt = 0; c.step();
            MC_CHECK(c, ok == !fail, "start-status", "a pool whose worker " << fail << " cannot start reports " << ok);
            if (ok) {
                vector<std::pair<Task*, uint64_t>> r; std::set<uint64_t> ids;
                for (int i = 0; i < reps; ++i) { auto* t = fresh(0, -1, VOID); t->timer = true; auto id = p.addRepeatTask(10, [t] { Running run(t); }); MC_CHECK(c, ids.insert(id).second, "id", "two repeated tasks of a pool have number " << id); r.push_back({t, id}); }
                for (int i = 0; i < n + 1; ++i) futs.push_back(delayed(p, 1, i, i % KINDS, 15));
                usleep(25000); p.purgeTimerTask(r[which].second); usleep(30000);
                for (int i = 0; i < reps; ++i) { size_t k = runsOf(r[i].first); MC_CHECK(c, i == which ? k == 2 : (k == 4 || k == 5), "pool-repeat", "task " << i << " of " << reps << " repeated every 10 ms ran " << k << " times in 55 ms" << (i == which ? ", purged after 25" : "")); }
                for (auto& f : futs) MC_CHECK(c, f.t->ranAt.size() == 1 && f.t->ranAt[0] >= f.t->due, "pool-delay", "a task delayed by 15 ms ran " << f.t->ranAt.size() << " times in 55 ms, or early");
            } else { p.stop(); p.wait(); }
        }
        for (auto& f : futs) judgeFuture(c, f);
        noneLeft(c);
        c.outcome(std::to_string(n) + "," + std::to_string(fail));
    });
}
int main(int argc, char** argv) {
    event_base_free(event_base_new());
    vector<mc::Scenario> sc;
    static const char* M[] = {"stopped when all is submitted", "stopped meanwhile", "ended by the destructor", "stopped by a task", "waited for before the stop", "stopped by two threads"};
    for (int m = 0; m < 6; ++m) sc.push_back({"tasks" + std::to_string(m), [m](Ctx& c) { int k = c.choose(2); tasks(c, m, k ? 1 : KINDS, k ? 1 : (c.thorough() ? 2 : 1), m >= 4 ? (c.thorough() && k ? 2 : 1) : k ? (c.thorough() ? 3 : 2) : (c.thorough() ? 2 : 1)); }, false, string("two submitters with one task each (thorough: two) of 6 kinds, ") + M[m] + ", 2 preemptions"});
    sc.push_back({"purge", [](Ctx& c) { purge(c, c.thorough() ? 3 : 2); }, false, "a repeated task purged by its submitter at once or later, by itself or twice, the worker busy with 4 other things, 2 (3) preemptions"});
    sc.push_back({"history", [](Ctx& c) { history(c, c.thorough() ? 6 : 5, 0); }, false, "all sequences of 5 (6) of 10 operations: tasks, long ones, delays, repeats, purges, sleeps and stop, in virtual time"});
    sc.push_back({"history1", [](Ctx& c) { history(c, c.thorough() ? 3 : 2, 1); }, false, "all sequences of 2 (3) of the same operations, 1 preemption"});
    sc.push_back({"pool", [](Ctx& c) { pool(c, c.thorough() ? 2 : 1); }, false, "pools of 1 and 2 workers with two submitters, 3 ends, started again, 1 (2) preemptions"});
    sc.push_back({"pooltimers", poolTimers, false, "pools of 1-3 workers with up to 4 repeated tasks, one purged, and delayed ones; the start of each worker failing"});
    return mc::run(argc, argv, "C35", sc, {"libevent and the kernel's eventfd and epoll are the real ones, with waiting and time virtual; folly's promises are a stand-in",
        "a worker is started, stopped and destroyed by its owner, not started again, and given tasks only after its start, as its interface demands"});
}
