// C05: countdown latch. Real Latch.cpp under the controlled scheduler.
#include "mc.h"
#include "vsched.h"
#include "common/concurrent/Latch.h"
#include <thread>
#include <memory>
#include <stdexcept>

using nebula::concurrent::Latch;
using mc::Ctx;
#define NT __attribute__((no_sanitize("thread")))

namespace {
enum Op { DOWN, DOWNWAIT, WAIT, READY, POLL };
const char* kOp[] = {"down", "downWait", "wait", "isReady", "poll"};

struct Book {          // harness bookkeeping: one thread runs at a time, so plain fields suffice
    int n = 0;         // initial count
    int begun = 0;     // down/downWait calls that have started
    int done = 0;      // down calls that have returned successfully
    int ok = 0, thrown = 0;
    int returned = 0;  // blocking calls that have returned
    int total = 0;     // decrements the whole program performs
};

struct World {
    std::unique_ptr<Latch> latch;
    Book b;
    int data[4] = {0, 0, 0, 0};   // plain data published by each decrementing thread
    bool writes[4] = {false, false, false, false};
};

NT void before(World& w, Op op) { if (op == DOWN || op == DOWNWAIT) w.b.begun++; }
NT void released(World& w, const char* what) {
    w.b.returned++;
    Ctx& c = mc::ctx();
    if (w.b.begun < w.b.n) c.fail("early-release", std::string(what) + " returned after " + std::to_string(w.b.begun) + " of " + std::to_string(w.b.n) + " countdowns had even started");
}
NT void downDone(World& w, bool threw) {
    if (threw) w.b.thrown++; else { w.b.ok++; w.b.done++; }
    Ctx& c = mc::ctx();
    if (w.b.ok > w.b.n) c.fail("too-many", "more countdowns succeeded than the initial count " + std::to_string(w.b.n));
    if (threw && w.b.begun <= w.b.n) c.fail("bad-throw", "a countdown was rejected although at most " + std::to_string(w.b.n) + " had been started");
}
NT void noData(World& w) { w.b.total = -1; }
NT bool dataKnown(World& w) { return w.b.total == w.b.n; }
NT int doneNow(World& w) { return w.b.done; }
NT void readyIs(World& w, bool r, int doneBefore) {
    Ctx& c = mc::ctx();
    if (r && w.b.begun < w.b.n) c.fail("ready-early", "isReady returned true before the count could be zero");
    if (!r && doneBefore >= w.b.n) c.fail("ready-late", "isReady returned false although " + std::to_string(doneBefore) + " countdowns had returned");
}
void readData(World& w) {      // instrumented on purpose: must be ordered after the countdowns
    if (!dataKnown(w)) return;
    for (int i = 0; i < 4; ++i)
        if (w.writes[i] && w.data[i] != 7) mc::ctx().fail("not-visible", "data written before the countdown is not visible after release");
}

void perform(World& w, Op op) {
    before(w, op);
    switch (op) {
        case DOWN:
            try { w.latch->down(); downDone(w, false); } catch (const std::runtime_error&) { downDone(w, true); }
            break;
        case DOWNWAIT:
            try {
                w.latch->downWait();
                downDone(w, false);
                released(w, "downWait");
                readData(w);
            } catch (const std::runtime_error&) { downDone(w, true); }
            break;
        case WAIT:
            w.latch->wait();
            released(w, "wait");
            readData(w);
            break;
        case READY: {
            int d = doneNow(w);
            bool r = w.latch->isReady();
            readyIs(w, r, d);
            if (r) readData(w);
            break;
        }
        case POLL:
            for (;;) {
                int d = doneNow(w);
                bool r = w.latch->isReady();
                readyIs(w, r, d);
                if (r) break;
                std::this_thread::yield();
            }
            readData(w);
            break;
    }
}

// Every assignment of one or two operations to each of `threads` threads.
void explore(Ctx& c, int threads, int maxOps, int maxN, mc::sched::Opts o, bool poll) {
    int n = 1 + c.choose(maxN);
    std::vector<std::vector<Op>> prog(threads);
    int prev = -1;
    for (int t = 0; t < threads; ++t) {
        // threads are interchangeable: programs are taken in non-decreasing order
        int kinds = poll && t == threads - 1 ? 5 : 4;
        int nprog = kinds + (maxOps > 1 ? kinds * kinds : 0);
        int lo = prev < 0 ? 0 : prev;
        int p = lo + c.choose(nprog - lo);
        prev = p;
        if (p < kinds) prog[t] = {(Op)p};
        else prog[t] = {(Op)((p - kinds) / kinds), (Op)((p - kinds) % kinds)};
    }
    int total = 0;
    for (auto& p : prog) for (Op x : p) total += x == DOWN || x == DOWNWAIT;
    if (c.logging()) {
        std::string s = "count " + std::to_string(n) + ":";
        for (auto& p : prog) { s += " ["; for (Op x : p) s += std::string(" ") + kOp[x]; s += " ]"; }
        c.log(s);
    }
    mc::sched::run(c, o, [&] {
        auto w = std::make_shared<World>();
        w->latch.reset(new Latch(n));
        w->b.n = n;
        w->b.total = total;
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t) {
            for (Op x : prog[t]) if (x == DOWN || x == DOWNWAIT) w->writes[t] = true;
            ts.emplace_back([w, t, &prog] {
                if (w->writes[t]) w->data[t] = 7;
                for (Op x : prog[t]) perform(*w, x);
            });
        }
        // Give everything time to block, then supply the countdowns that are still missing. A thread
        // that blocks in downWait may hold back later countdowns of its own program.
        mc::sched::block_until_deadline([] { return false; }, mc::sched::now_ns() + 1000000000LL, "the threads to settle");
        while (w->b.ok < n) {
            if (w->b.returned) c.fail("early-release", "a waiter was released although only " + std::to_string(w->b.ok) + " of " + std::to_string(n) + " countdowns succeeded");
            if (w->latch->isReady()) c.fail("ready-early", "isReady is true with " + std::to_string(w->b.ok) + " of " + std::to_string(n) + " countdowns");
            noData(*w);
            perform(*w, DOWN);
            mc::sched::block_until_deadline([] { return false; }, mc::sched::now_ns() + 1000000000LL, "the threads to settle");
        }
        for (auto& t : ts) t.join();
        if (!w->latch->isReady()) c.fail("ready-late", "isReady is false after the count reached zero");
        w->latch->wait();     // returns at once
        bool threw = false;
        try { w->latch->down(); } catch (const std::runtime_error&) { threw = true; }
        if (!threw) c.fail("too-many", "counting down a zeroed latch did not throw");
        threw = false;
        try { w->latch->downWait(); } catch (const std::runtime_error&) { threw = true; }
        if (!threw) c.fail("too-many", "downWait on a zeroed latch did not throw");
        if (!w->latch->isReady()) c.fail("ready-late", "a rejected countdown disturbed the latch");
        w->latch->wait();
        c.state(std::to_string(n) + "/" + std::to_string(w->b.ok) + "/" + std::to_string(w->b.thrown) + "/" + std::to_string(w->b.returned) + "/" + std::to_string(total));
        c.outcome("ok " + std::to_string(w->b.ok) + " rejected " + std::to_string(w->b.thrown) + " released " + std::to_string(w->b.returned));
    });
}
}  // namespace

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    auto opts = [](int p, int s) { mc::sched::Opts o; o.preemptions = p; o.spurious = s; return o; };
    sc.push_back({"construct", [](Ctx& c) {
        size_t n = std::vector<size_t>{0, 1, 2, 5, (size_t)1 << 33}[c.choose(5)];
        bool threw = false;
        try { Latch l(n); if (l.isReady()) c.fail("ready-early", "a new latch is ready"); } catch (const std::invalid_argument&) { threw = true; }
        c.outcome(threw ? "rejected" : "made"); c.state(std::to_string(n)); c.step();
        if (threw != (n == 0)) c.fail("construct", "latch of count " + std::to_string(n) + (threw ? " rejected" : " accepted"));
    }, false, "every count of {0,1,2,5,2^33}"});
    sc.push_back({"two-threads", [=](Ctx& c) { explore(c, 2, 2, 3, opts(c.thorough() ? 4 : 2, 0), false); }, false,
        "2 threads x all programs of 1-2 ops of {down,downWait,wait,isReady}, counts 1..3, preemptions 2 (3)"});
    sc.push_back({"two-threads-spurious", [=](Ctx& c) { explore(c, 2, 2, 2, opts(1, 1), false); }, false,
        "2 threads x all programs of 1-2 ops, counts 1..2, preemptions 1, spurious wakeups 1"});
    sc.push_back({"three-threads", [=](Ctx& c) { explore(c, 3, 1, 3, opts(c.thorough() ? 3 : 2, 0), true); }, false,
        "3 threads x 1 op of {down,downWait,wait,isReady} (one may poll isReady), counts 1..3, preemptions 2 (3)"});
    if (true) sc.push_back({"four-threads", [=](Ctx& c) { explore(c, 4, 1, 3, opts(c.thorough() ? 2 : 1, 0), false); }, false,
        "4 threads x 1 op, counts 1..3, preemptions 1 (2)"});
    // The releasing thread may still be inside the latch when a released one destroys it.
    sc.push_back({"destroy-after-release", [=](Ctx& c) {
        int how = c.choose(3);
        int downs = 1 + c.choose(2);
        mc::sched::run(c, opts(c.thorough() ? 6 : 4, 1), [&] {
            Latch* l = new Latch(downs);
            std::vector<std::thread> ts;
            for (int i = 0; i < downs - (how == 2); ++i) ts.emplace_back([l] { l->down(); });
            if (how == 0) l->wait();
            else if (how == 1) { while (!l->isReady()) std::this_thread::yield(); }
            else l->downWait();
            delete l;
            for (auto& t : ts) t.join();
            c.outcome("freed"); c.state(std::to_string(how) + std::to_string(downs));
        });
    }, false, "wait / isReady poll / downWait, then destroy the latch while the counting threads may still be inside; 1-2 of them"});
    return mc::run(argc, argv, "C05", sc, {"std::mutex and condition variables behave as POSIX says (modelled by the scheduler)",
        "sequentially consistent memory plus happens-before race detection"});
}
