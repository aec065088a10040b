// Controlled scheduler for the real multi-threaded code.
//
// Code under test is compiled with -fsanitize=thread but linked against vsched.cc instead of the
// ThreadSanitizer runtime: every memory access, atomic operation, pthread call, sleep and clock read
// then reaches the scheduler. Exactly one thread runs at a time; at every synchronisation operation
// the engine decides which thread continues (preemption-bounded), which waiter a notify wakes,
// whether a waiter wakes spuriously and whether a timer fires first. Time is virtual. Plain memory
// accesses are checked for data races with vector clocks and for use of freed memory.
#pragma once
#include "mc.h"
#include <functional>

namespace mc { namespace sched {

struct Opts {
    int preemptions = 2;       // switches away from a thread that could have continued
    int spurious = 0;          // spurious condition-variable wakeups
    int timeouts = 0;          // timers that fire although some thread could still run
    bool races = true;         // report data races
    uint64_t max_steps = 20000;
    int64_t start_ns = 1600000000LL * 1000000000LL;   // virtual CLOCK_REALTIME at start
    bool pool = true;          // reuse OS threads over executions (thread_local state then persists)
    bool cond_lifetime = false;   // report any use of a destroyed condition variable (none may be made at the same address later)
    bool daemon_ok = false;    // detached threads may still be blocked at the end (needs fork_each)
};

void run(Ctx& c, const Opts& o, const std::function<void()>& body);
bool in_model();
int self();                    // model thread number, 0 = main
void point();                  // explicit scheduling point
int64_t now_ns();              // virtual time
void set_clock_step(int64_t ns);   // every clock read advances virtual time by this much
uint64_t steps();
// Blocks the calling model thread until pred() holds; pred is evaluated by the scheduler.
void block_until(const std::function<bool()>& pred, const char* what);
// As block_until with a deadline in virtual time; returns false on timeout.
bool block_until_deadline(const std::function<bool()>& pred, int64_t deadline_ns, const char* what);

// happens-before edges for stand-ins written in the harness
void hb_release(const void* obj);
void hb_acquire(const void* obj);

struct IgnoreScope { IgnoreScope(); ~IgnoreScope(); };   // no race checks inside

}}  // namespace mc::sched
