// Stand-in for folly::EventBase: work is put in a queue the harness drains (seq checks), or handed to mc_evb_hook.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <vector>
#include "folly/Executor.h"
namespace folly {
class EventBase : public Executor {
 public:
    struct Delayed { uint64_t seq; uint32_t ms; Func f; };
    std::mutex mu; std::deque<Func> q; std::vector<Delayed> timers; uint64_t nextSeq = 0; bool inLoop = false;
    void add(Func f) override { std::lock_guard<std::mutex> g(mu); q.push_back(std::move(f)); }
    bool runInEventBaseThread(Func f) { add(std::move(f)); return true; }
    bool runInEventBaseThreadAndWait(Func f) { f(); return true; }
    static EventBase*& mcOn() { static thread_local EventBase* b = nullptr; return b; }  // the base whose thread is running
    bool runImmediatelyOrRunInEventBaseThreadAndWait(Func f) { auto* o = mcOn(); mcOn() = this; f(); mcOn() = o; return true; }
    bool runImmediatelyOrRunInEventBaseThread(Func f) { f(); return true; }
    void runInLoop(Func f, bool = false) { add(std::move(f)); }
    bool runAfterDelay(Func f, uint32_t ms) { std::lock_guard<std::mutex> g(mu); timers.push_back({nextSeq++, ms, std::move(f)}); return true; }
    bool tryRunAfterDelay(Func f, uint32_t ms) { return runAfterDelay(std::move(f), ms); }
    bool isInEventBaseThread() const { return true; }
    bool mcRunOne() { Func f; { std::lock_guard<std::mutex> g(mu); if (q.empty()) return false; f = std::move(q.front()); q.pop_front(); } f(); return true; }
    bool mcRunTimer(size_t i, uint32_t* ms = nullptr) { Func f; { std::lock_guard<std::mutex> g(mu); if (i >= timers.size()) return false; f = std::move(timers[i].f); if (ms) *ms = timers[i].ms; timers.erase(timers.begin() + (long)i); } f(); return true; }
    size_t mcPending() { std::lock_guard<std::mutex> g(mu); return q.size(); }
    bool loopOnce(int = 0) { return mcRunOne(); }
    bool loop() { while (mcRunOne()) {} return true; }
    void loopForever() { loop(); }
    void terminateLoopSoon() {}
};
}
