// C06: reusable barrier. Real Barrier.cpp under the controlled scheduler.
#include "mc.h"
#include "vsched.h"
#include "common/concurrent/Barrier.h"
#include <thread>
#include <memory>
#include <stdexcept>

using nebula::concurrent::Barrier;
using mc::Ctx;
#define NT __attribute__((no_sanitize("thread")))

namespace {
struct World {
    std::unique_ptr<Barrier> bar;
    int n = 0, threads = 0;
    bool cb = false;
    // bookkeeping, only touched from uninstrumented functions
    int begun = 0, returned = 0, completions = 0, inCompletion = 0;
    int arrived[5] = {0}, left[5] = {0};    // rounds entered / left by each thread
    int extras = 0;
    // plain data of the program: published by each participant, merged by the completion
    int data[5] = {0}; int merged = 0;
};

NT void arrive(World& w, int t) { w.begun++; w.arrived[t]++; }
NT bool doneAll(World& w, int total) { return w.returned >= total + w.extras; }
NT void extra(World& w) { w.extras++; }
NT void completion(World& w) {
    Ctx& c = mc::ctx();
    if (w.inCompletion) c.fail("completion-overlap", "two completions run at the same time");
    w.completions++;
    if (w.begun < w.completions * w.n) c.fail("completion-early", "completion " + std::to_string(w.completions) + " ran after " + std::to_string(w.begun) + " arrivals of " + std::to_string(w.n) + " per round");
    if (w.returned > (w.completions - 1) * w.n) c.fail("completion-late", "a participant left the round before its completion ran");
    if (w.threads == w.n)
        for (int t = 0; t < w.threads; ++t) {
            if (w.arrived[t] < w.completions) c.fail("completion-early", "completion of round " + std::to_string(w.completions) + " ran before thread " + std::to_string(t) + " arrived");
            if (w.left[t] >= w.completions) c.fail("completion-late", "thread " + std::to_string(t) + " left round " + std::to_string(w.completions) + " before its completion");
        }
    w.inCompletion = 1;
}
NT void completionEnd(World& w) { w.inCompletion = 0; }
NT void leave(World& w, int t) {
    Ctx& c = mc::ctx();
    w.returned++; w.left[t]++;
    int rounds = w.begun / w.n;
    if (w.returned > rounds * w.n) c.fail("early-release", std::to_string(w.returned) + " waits returned after " + std::to_string(w.begun) + " arrivals of " + std::to_string(w.n) + " per round");
    if (w.cb && w.returned > w.completions * w.n) c.fail("completion-missing", "a wait returned before the completion of its round");
    if (w.cb && w.inCompletion && w.threads == w.n) c.fail("completion-late", "a wait returned while the completion of its round was still running");
    if (w.threads == w.n)
        for (int q = 0; q < w.threads; ++q)
            if (w.arrived[q] < w.left[t]) c.fail("early-release", "thread " + std::to_string(t) + " left round " + std::to_string(w.left[t]) + " before thread " + std::to_string(q) + " entered it");
}

void explore(Ctx& c, int n, int threads, int rounds, mc::sched::Opts o) {
    bool cb = c.flip();
    if (c.logging()) c.log("barrier of " + std::to_string(n) + ", " + std::to_string(threads) + " threads x " + std::to_string(rounds) + " waits" + (cb ? ", completion" : ""));
    mc::sched::run(c, o, [&] {
        auto w = std::make_shared<World>();
        w->n = n; w->threads = threads; w->cb = cb;
        World* p = w.get();
        if (cb) {
            w->bar.reset(new Barrier(n, [p] {
                completion(*p);
                int s = 0;
                if (p->threads == p->n) for (int i = 0; i < p->n; ++i) s += p->data[i];   // race-checked
                p->merged = s;
                mc::sched::point();
                completionEnd(*p);
            }));
        } else {
            w->bar.reset(new Barrier(n));
        }
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t)
            ts.emplace_back([p, t, rounds] {
                for (int r = 1; r <= rounds; ++r) {
                    bool exact = p->threads == p->n;
                    if (exact) p->data[t] = r;
                    arrive(*p, t);
                    p->bar->wait();
                    leave(*p, t);
                    if (exact && p->cb) {
                        // the completion of the next round cannot run before this thread arrives again
                        if (p->merged != r * p->n) mc::ctx().fail("not-visible", "after round " + std::to_string(r) + " the completion's result is " + std::to_string(p->merged));
                    } else if (exact) {
                        int other = (t + 1) % p->n;
                        // without a second round nobody writes any more
                        if (r == rounds && p->data[other] != r) mc::ctx().fail("not-visible", "data of the peer is not visible after the barrier");
                    }
                }
            });
        int total = threads * rounds;
        // With more threads than participants the last arrivals can lack partners: supply them.
        while (threads != n && !mc::sched::block_until_deadline([p, total] { return doneAll(*p, total); }, mc::sched::now_ns() + 1000000000LL, "the threads to settle")) {
            if (p->begun % n == 0) c.fail("lost-wakeup", "all rounds are complete but a participant still waits");
            arrive(*p, 4); p->bar->wait(); leave(*p, 4);
            extra(*p);
        }
        for (auto& t : ts) t.join();
        total += p->extras;
        if (w->returned != total) c.fail("lost", "not every wait returned");
        if (cb && w->completions != total / n) c.fail("completion-count", std::to_string(w->completions) + " completions for " + std::to_string(total / n) + " rounds");
        c.outcome("n" + std::to_string(n) + " returned " + std::to_string(w->returned) + " completions " + std::to_string(w->completions));
        c.state(std::to_string(n) + "/" + std::to_string(threads) + "/" + std::to_string(rounds) + "/" + std::to_string(cb));
    });
}
}  // namespace

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    auto opts = [](int p, int s) { mc::sched::Opts o; o.preemptions = p; o.spurious = s; return o; };
    sc.push_back({"construct", [](Ctx& c) {
        size_t n = std::vector<size_t>{0, 1, 2, (size_t)1 << 33}[c.choose(4)];
        bool cb = c.flip();
        bool threw = false;
        int ran = 0;
        try {
            Barrier b(n, cb ? std::function<void()>([&] { ++ran; }) : std::function<void()>());
            if (n == 1) for (int i = 1; i <= 3; ++i) { b.wait(); if (ran != (cb ? i : 0)) c.fail("completion-count", "barrier of one: completion ran " + std::to_string(ran) + " times after " + std::to_string(i) + " waits"); }
            else if (ran) c.fail("completion-count", "completion ran without an arrival");
        } catch (const std::invalid_argument&) { threw = true; }
        c.outcome(threw ? "rejected" : "made"); c.state(std::to_string(n)); c.step();
        if (threw != (n == 0)) c.fail("construct", "barrier of count " + std::to_string(n) + (threw ? " rejected" : " accepted"));
    }, false, "every count of {0,1,2,2^33}, with and without completion; a barrier of one used three times"});
    sc.push_back({"two", [=](Ctx& c) { explore(c, 2, 2, 1 + c.choose(3), opts(c.thorough() ? 6 : 4, c.thorough() ? 3 : 2)); }, false,
        "2 threads, 1-3 rounds, with/without completion, preemptions 4 (6), spurious 2 (3)"});
    sc.push_back({"three", [=](Ctx& c) { explore(c, 3, 3, 1 + c.choose(2), opts(c.thorough() ? 3 : 2, 1)); }, false,
        "3 threads, 1-2 rounds, preemptions 2 (3), spurious 1"});
    sc.push_back({"four", [=](Ctx& c) { explore(c, 4, 4, 1 + c.choose(2), opts(c.thorough() ? 2 : 1, 0)); }, false,
        "4 threads, 1-2 rounds, preemptions 1 (2)"});
    sc.push_back({"oversubscribed", [=](Ctx& c) {
        static const int cfg[][3] = {{2, 3, 1}, {1, 2, 2}, {2, 2, 3}, {2, 3, 2}, {2, 4, 1}, {2, 3, 3}};
        int i = c.choose(6);
        int heavy = i >= 3;
        explore(c, cfg[i][0], cfg[i][1], cfg[i][2], opts(c.thorough() ? 3 - heavy : 1, heavy ? 0 : 1));
    }, false, "barriers of 1-2 used by more threads than participants, 1-3 rounds; stragglers get a partner; preemptions 1 (3), spurious 0-1"});
    // The thread that completes the last round may still be inside when a released one destroys it.
    sc.push_back({"destroy-after-release", [=](Ctx& c) {
        mc::sched::run(c, opts(c.thorough() ? 8 : 6, 1), [&] {
            Barrier* b = new Barrier(2);
            std::thread t([b] { b->wait(); });
            b->wait();
            t.join();
            delete b;
            c.outcome("freed"); c.state("d");
        });
    }, false, "two threads meet once, then the barrier is destroyed"});
    return mc::run(argc, argv, "C06", sc, {"std::mutex and condition variables behave as POSIX says (modelled by the scheduler)",
        "sequentially consistent memory plus happens-before race detection", "the completion does not throw and does not use the barrier"});
}
