// See vsched.h. This file is compiled WITHOUT -fsanitize=thread.
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace mc { namespace sched {

namespace {

constexpr int kT = 8;
typedef uint32_t Clk;

struct VC {
    Clk c[kT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < kT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Status { RUNNABLE, BLOCKED, FINISHED };

struct Thread {
    int id;
    Status st;
    int futex;
    VC vc;
    VC acq_pending, rel_fence;
    pthread_t os;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined, yielding;
    unsigned ywait = 0;
    // blocking
    const char* what;
    void* obj;              // mutex, condvar, thread...
    bool cond_wait;         // may wake spuriously
    int64_t deadline;       // virtual ns, or INT64_MAX
    bool timed_out, woken;
    std::function<bool()> pred;
    bool has_pred;
    int ignore;
};

struct Mutex { int owner = -1; int count = 0; VC vc; };
struct RW { int writer = -1; int readers = 0; std::set<int> rd; VC wvc, rvc; };
struct Guard { int owner = -1; };

struct Cell {
    uint64_t key;
    uint32_t gen;
    uint8_t freed;
    uint8_t wm[kT], rm[kT], awm[kT], arm[kT];
    Clk w[kT], r[kT], aw[kT], ar[kT];
    void* pc[kT];
    void* fpc;
};

struct State {
    bool on = false;
    Opts o;
    Ctx* c = nullptr;
    std::vector<Thread*> th;
    int cur = 0;
    int preempt = 0, spurious = 0, timeouts = 0;
    int yields = 0;
    uint64_t steps = 0;
    int64_t now = 0;
    int64_t clock_step = 0;
    std::map<void*, Mutex> mx;
    std::map<void*, RW> rw;
    std::set<void*> dead_conds;
    std::map<void*, Guard> guards;
    std::map<void*, VC> sync;      // atomics, condvars, once...
    std::vector<void*> quarantine;
    uint64_t hash = 0;
};

State* G = nullptr;
thread_local Thread* t_cur = nullptr;   // model thread of this OS thread
thread_local int t_rt = 0;              // inside the runtime

struct Rt { Rt() { ++t_rt; } ~Rt() { --t_rt; } };

inline bool live() { return t_cur != nullptr && t_rt == 0; }

// ---------- shadow memory ----------
Cell* g_cells = nullptr;
size_t g_ncells = 0, g_used = 0;
uint32_t g_gen = 1;

void grow();
Cell* cell(uint64_t key, bool create) {
    size_t m = g_ncells - 1;
    size_t i = (key * 0x9e3779b97f4a7c15ull >> 20) & m;
    for (;;) {
        Cell& c = g_cells[i];
        if (c.gen != g_gen) {
            if (!create) return nullptr;
            if (g_used * 2 > g_ncells) { grow(); return cell(key, true); }
            memset(&c, 0, sizeof c);
            c.gen = g_gen; c.key = key; ++g_used;
            return &c;
        }
        if (c.key == key) return &c;
        i = (i + 1) & m;
    }
}
void grow() {
    Cell* old = g_cells; size_t n = g_ncells;
    g_ncells = n ? n * 2 : 1 << 14;
    g_cells = (Cell*)__libc_calloc(g_ncells, sizeof(Cell));
    g_used = 0;
    for (size_t i = 0; i < n; ++i) if (old[i].gen == g_gen) *cell(old[i].key, true) = old[i];
    __libc_free(old);
}

std::string where(void* pc) {
    Dl_info di;
    char buf[600];
    if (pc && dladdr(pc, &di) && di.dli_fname) {
        char cmd[900];
        snprintf(cmd, sizeof cmd, "addr2line -Cfpie '%s' 0x%lx 2>/dev/null", di.dli_fname,
                 (unsigned long)((char*)pc - (char*)di.dli_fbase) - 1);
        Thread* save = t_cur; t_cur = nullptr;
        FILE* f = popen(cmd, "r");
        std::string r;
        if (f) { while (fgets(buf, sizeof buf, f)) r += buf; pclose(f); }
        t_cur = save;
        while (!r.empty() && r.back() == '\n') r.pop_back();
        auto nl = r.find('\n');
        if (nl != std::string::npos) r.resize(nl);
        if (!r.empty()) return r;
    }
    snprintf(buf, sizeof buf, "pc %p", pc);
    return buf;
}

[[noreturn]] void violation(const char* key, const std::string& msg) {
    t_cur = nullptr;
    die_violation(key, msg);
}

void check_freed(void* a, void* pc, const char* what) {
    Cell* c = cell((uint64_t)a >> 3, false);
    if (c && c->freed) {
        Rt r;
        violation("use-after-free", std::string(what) + " on freed memory at " + where(pc) + ", freed at " + where(c->fpc));
    }
}

void race(void* addr, const char* k1, void* pc1, int t2, const char* k2, void* pc2) {
    char b[200];
    snprintf(b, sizeof b, "data race on %p: %s by thread %d at ", addr, k1, t_cur->id);
    std::string m = b + where(pc1);
    snprintf(b, sizeof b, " conflicts with %s by thread %d at ", k2, t2);
    violation("data-race", m + b + where(pc2));
}

void access1(uint64_t key, uint8_t mask, bool wr, bool atomic, void* pc) {
    Cell* c = cell(key, true);
    Thread* t = t_cur;
    if (c->freed) {
        Rt r;
        violation("use-after-free", std::string(wr ? "write" : "read") + " of freed memory at " + where(pc) + ", freed at " + where(c->fpc));
    }
    if (G->o.races && !t->ignore) {
        for (int i = 0; i < (int)G->th.size(); ++i) {
            if (i == t->id) continue;
            if ((c->wm[i] & mask) && c->w[i] > t->vc.c[i]) { Rt r; race((void*)(key << 3), wr ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), pc, i, "write", c->pc[i]); }
            if (!atomic && (c->awm[i] & mask) && c->aw[i] > t->vc.c[i]) { Rt r; race((void*)(key << 3), wr ? "write" : "read", pc, i, "atomic write", c->pc[i]); }
            if (wr && (c->rm[i] & mask) && c->r[i] > t->vc.c[i]) { Rt r; race((void*)(key << 3), atomic ? "atomic write" : "write", pc, i, "read", c->pc[i]); }
            if (wr && !atomic && (c->arm[i] & mask) && c->ar[i] > t->vc.c[i]) { Rt r; race((void*)(key << 3), "write", pc, i, "atomic read", c->pc[i]); }
        }
    }
    int id = t->id;
    Clk k = t->vc.c[id];
    Clk* cl = wr ? (atomic ? c->aw : c->w) : (atomic ? c->ar : c->r);
    uint8_t* ms = wr ? (atomic ? c->awm : c->wm) : (atomic ? c->arm : c->rm);
    if (cl[id] == k) ms[id] |= mask; else { cl[id] = k; ms[id] = mask; }
    c->pc[id] = pc;
}

void access(void* addr, size_t n, bool wr, bool atomic, void* pc) {
    if (n == 0) return;
    uint64_t a = (uint64_t)addr, e = a + n;
    while (a < e) {
        uint64_t key = a >> 3;
        uint64_t hi = (key + 1) << 3;
        uint64_t stop = e < hi ? e : hi;
        uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a & 7));
        access1(key, mask, wr, atomic, pc);
        a = stop;
    }
}

void forget(void* p, size_t n, bool freed, void* pc) {
    uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
    for (; a < e; ++a) {
        Cell* c = cell(a, freed);
        if (!c) continue;
        uint64_t key = c->key; uint32_t gen = c->gen;
        memset(c, 0, sizeof *c);
        c->key = key; c->gen = gen; c->freed = freed; c->fpc = pc;
    }
    auto drop = [&](auto& m) {
        if (m.empty()) return;
        auto it = m.lower_bound(p);
        while (it != m.end() && it->first < (char*)p + n) it = m.erase(it);
    };
    drop(G->sync);
    if (!freed) { drop(G->mx); drop(G->rw); drop(G->guards); }
}

// ---------- baton ----------
void fwait(int* w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void fwake(int* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void tick(Thread* t) { t->vc.c[t->id]++; }

std::string describe() {
    std::string s;
    for (auto* t : G->th) {
        if (t->st == FINISHED) continue;
        s += " thread " + std::to_string(t->id) + (t->st == RUNNABLE ? " runnable" : std::string(" waits for ") + (t->what ? t->what : "?")) + ";";
    }
    return s;
}

void make_runnable(Thread* t) { t->st = RUNNABLE; t->obj = nullptr; t->has_pred = false; t->pred = nullptr; }

// Decide who runs next; returns when this thread holds the baton again (never, if it has finished).
void schedule() {
    Thread* me = t_cur;
    if (++G->steps > G->o.max_steps)
        violation("livelock", "no end within " + std::to_string(G->o.max_steps) + " steps:" + describe());
    G->c->step();
    for (auto* t : G->th)
        if (t->st == BLOCKED && t->has_pred && t->pred()) { t->woken = true; make_runnable(t); }
    int alt[2 * kT * 2], kind[2 * kT * 2];
    for (;;) {
        int n = 0;
        unsigned run = 0;
        for (auto* t : G->th) if (t->st == RUNNABLE) run |= 1u << t->id;
        // a thread that has yielded waits until every thread runnable at that time has had a turn
        for (auto* t : G->th) { t->ywait &= run; t->yielding = t->ywait != 0; }
        bool me_ok = me->st == RUNNABLE;
        bool others = false;
        for (auto* t : G->th) if (t != me && t->st == RUNNABLE && !t->yielding) others = true;
        if (me_ok && !me->yielding) { alt[n] = me->id; kind[n++] = 0; }
        bool free_switch = n == 0;
        bool can_preempt = free_switch || G->preempt < G->o.preemptions;
        if (can_preempt)
            for (auto* t : G->th)
                if (t != me && t->st == RUNNABLE && !t->yielding) { alt[n] = t->id; kind[n++] = free_switch ? 0 : 1; }
        if (n == 0 && run) {      // everybody spins: round robin
            int k = me->id;
            do k = (k + 1) % (int)G->th.size(); while (!(run >> k & 1));
            alt[n] = k; kind[n++] = 0;
        }
        (void)others;
        bool any_runnable = n > 0;
        if (!any_runnable || G->yields > 3 * (int)G->th.size()) {
            // only spinning threads left, or threads spin for long: time passes
            G->yields = 0;
            int64_t d = INT64_MAX;
            for (auto* t : G->th) if (t->st == BLOCKED && t->deadline < d) d = t->deadline;
            if (d != INT64_MAX) {
                if (d > G->now) G->now = d;
                for (auto* t : G->th)
                    if (t->st == BLOCKED && t->deadline <= G->now) { t->timed_out = true; make_runnable(t); }
                continue;
            }
        }
        if (any_runnable && G->spurious < G->o.spurious)
            for (auto* t : G->th) if (t->st == BLOCKED && t->cond_wait) { alt[n] = t->id; kind[n++] = 2; }
        if (any_runnable && G->timeouts < G->o.timeouts)
            for (auto* t : G->th) if (t->st == BLOCKED && t->deadline != INT64_MAX) { alt[n] = t->id; kind[n++] = 3; }
        if (!any_runnable) {
            int64_t d = INT64_MAX;
            for (auto* t : G->th) if (t->st == BLOCKED && t->deadline < d) d = t->deadline;
            if (d == INT64_MAX) {
                violation("deadlock", "no thread can continue:" + describe());
            }
            if (d > G->now) G->now = d;
            for (auto* t : G->th)
                if (t->st == BLOCKED && t->deadline <= G->now) { t->timed_out = true; make_runnable(t); }
            continue;
        }
        int k = n == 1 ? 0 : G->c->choose(n);
        Thread* nx = G->th[alt[k]];
        if (kind[k] == 1) G->preempt++;
        if (kind[k] == 2) { G->spurious++; make_runnable(nx); }
        if (kind[k] == 3) {
            G->timeouts++;
            if (nx->deadline > G->now) G->now = nx->deadline;
            // everything due by now has fired
            for (auto* t : G->th)
                if (t->st == BLOCKED && t->deadline <= G->now) { t->timed_out = true; make_runnable(t); }
        }
        for (auto* t : G->th) t->ywait &= ~(1u << nx->id);
        nx->ywait = 0;
        if (G->c->logging() && nx != me) G->c->log("run T" + std::to_string(nx->id));
        G->cur = nx->id;
        if (nx == me) return;
        bool done = me->st == FINISHED;
        if (done) t_cur = nullptr;   // this OS thread leaves the model now
        fwake(&nx->futex);
        if (done) return;
        fwait(&me->futex);
        return;
    }
}

void pt() { schedule(); }

void block(const char* what, void* obj, int64_t deadline = INT64_MAX, bool cond = false) {
    Thread* me = t_cur;
    me->st = BLOCKED; me->what = what; me->obj = obj; me->deadline = deadline; me->cond_wait = cond;
    me->timed_out = me->woken = false;
    schedule();
    me->cond_wait = false; me->deadline = INT64_MAX; me->what = nullptr;
}

void wake_all(void* obj) {
    for (auto* t : G->th) if (t->st == BLOCKED && t->obj == obj && !t->cond_wait) { t->woken = true; make_runnable(t); }
}

VC& sync_of(void* a) {
    auto it = G->sync.find(a);
    if (it == G->sync.end()) { it = G->sync.emplace(a, VC()).first; it->second.clear(); }
    return it->second;
}
void acq(void* a) { t_cur->vc.join(sync_of(a)); }
void rel(void* a) { sync_of(a).join(t_cur->vc); tick(t_cur); }

Mutex& mutex_of(void* m) {
    auto it = G->mx.find(m);
    if (it == G->mx.end()) { it = G->mx.emplace(m, Mutex()).first; it->second.vc.clear(); }
    return it->second;
}

bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

void lock_now(void* m, bool point_first, void* pc, bool recursive = false) {
    if (point_first) pt();
    check_freed(m, pc, "mutex lock");
    for (;;) {
        Mutex& x = mutex_of(m);
        if (x.owner == -1) { x.owner = t_cur->id; x.count = 1; t_cur->vc.join(x.vc); return; }
        if (x.owner == t_cur->id) {
            if (recursive) { x.count++; return; }
            violation("deadlock", "thread " + std::to_string(t_cur->id) + " locks a mutex it already holds at " + where(pc));
        }
        block("a mutex", m);
        check_freed(m, pc, "mutex lock");
    }
}
void unlock_now(void* m, void* pc) {
    check_freed(m, pc, "mutex unlock");
    Mutex& x = mutex_of(m);
    if (x.owner != t_cur->id) violation("bad-unlock", "unlock of a mutex not held by the thread at " + where(pc));
    if (--x.count > 0) return;
    x.owner = -1;
    x.vc.join(t_cur->vc);
    tick(t_cur);
    wake_all(m);
}

template <class F> F real(const char* n) {
    F f = (F)dlsym(RTLD_NEXT, n);
    if (!f) { fprintf(stderr, "mc: no %s\n", n); _exit(70); }
    return f;
}
#define REAL(name) static auto real_##name = real<decltype(&::name)>(#name)

struct Worker { pthread_t os; int job = 0; Thread* t = nullptr; int idle = 1; uint64_t used = 0; };
std::vector<Worker*>* g_pool = nullptr;
uint64_t g_exec = 0;

void clear_stack_shadow() {
    // this stack may have belonged to another thread of this execution
    pthread_attr_t a; void* lo; size_t sz;
    Rt r;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        pthread_attr_destroy(&a);
        for (size_t i = 0; i < g_ncells; ++i)
            if (g_cells[i].gen == g_gen && g_cells[i].key >= ((uint64_t)lo >> 3) && g_cells[i].key < (((uint64_t)lo + sz) >> 3)) {
                uint64_t key = g_cells[i].key; uint32_t gen = g_cells[i].gen;
                memset(&g_cells[i], 0, sizeof(Cell));
                g_cells[i].key = key; g_cells[i].gen = gen;
            }
    }
}

void* trampoline(void* p) {
    Thread* t = (Thread*)p;
    fwait(&t->futex);
    t_cur = t;
    if (!G->o.pool) clear_stack_shadow();
    void* ret = t->fn(t->arg);
    Rt r;
    t->ret = ret;
    t->st = FINISHED;
    rel(t);
    for (auto* o : G->th) if (o->st == BLOCKED && o->obj == t) { o->woken = true; make_runnable(o); }
    for (auto* o : G->th) if (o->st == BLOCKED && o->obj == (void*)G) {   // main waits for everybody
        bool all = true;
        for (auto* q : G->th) if (q->id && q->st != FINISHED && !(q->detached && G->o.daemon_ok)) all = false;
        if (all) { o->woken = true; make_runnable(o); }
    }
    schedule();
    return ret;
}

// Operating-system threads are reused over executions (creating millions of them exhausts the
// kernel); a worker serves at most one model thread per execution.
void* worker_main(void* p) {
    Worker* w = (Worker*)p;
    for (;;) {
        fwait(&w->job);
        trampoline(w->t);
        __atomic_store_n(&w->idle, 1, __ATOMIC_RELEASE);
    }
    return nullptr;
}

// the monotonic clocks lag behind the real-time clock by a constant
int64_t clock_off(clockid_t k) { return k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? 0 : 1590000000123456789LL; }
void abs_deadline(clockid_t clk, const struct timespec* ts, int64_t& d) {
    int64_t v = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    d = v + clock_off(clk);
}

}  // namespace

bool in_model() { return t_cur != nullptr; }
int self() { return t_cur ? t_cur->id : -1; }
void point() { if (live()) { Rt r; pt(); } }
int64_t now_ns() { return G ? G->now : 0; }
void set_clock_step(int64_t ns) { if (G) G->clock_step = ns; }
uint64_t steps() { return G ? G->steps : 0; }
IgnoreScope::IgnoreScope() { if (t_cur) t_cur->ignore++; }
IgnoreScope::~IgnoreScope() { if (t_cur) t_cur->ignore--; }
void hb_release(const void* o) { if (live()) { Rt r; rel((void*)o); } }
void hb_acquire(const void* o) { if (live()) { Rt r; acq((void*)o); } }

void block_until(const std::function<bool()>& pred, const char* what) {
    if (!live()) return;
    Rt r;
    pt();
    while (!pred()) {
        t_cur->pred = pred; t_cur->has_pred = true;
        block(what, nullptr);
        t_cur->has_pred = false;
    }
}
bool block_until_deadline(const std::function<bool()>& pred, int64_t deadline, const char* what) {
    if (!live()) return true;
    Rt r;
    pt();
    while (!pred()) {
        if (G->now >= deadline) return false;
        t_cur->pred = pred; t_cur->has_pred = true;
        block(what, nullptr, deadline);
        t_cur->has_pred = false;
        if (t_cur->timed_out) return pred();
    }
    return true;
}

void run(Ctx& c, const Opts& o, const std::function<void()>& body) {
    {
        Rt r;
        if (!g_cells) grow();
        ++g_gen; g_used = 0; ++g_exec;
        if (g_gen == 0) { memset(g_cells, 0, g_ncells * sizeof(Cell)); g_gen = 1; }
        G = new State();
        G->on = true; G->o = o; G->c = &c; G->now = o.start_ns;
        Thread* t = new Thread();
        t->id = 0; t->st = RUNNABLE; t->futex = 0; t->vc.clear(); t->acq_pending.clear(); t->rel_fence.clear();
        t->os = pthread_self(); t->deadline = INT64_MAX; t->vc.c[0] = 1;
        t->detached = t->joined = t->yielding = t->cond_wait = t->has_pred = false; t->ignore = 0; t->what = nullptr; t->obj = nullptr;
        G->th.reserve(kT);
        G->th.push_back(t);
    }
    t_cur = G->th[0];
    body();
    {
        Rt r;
        for (;;) {
            bool all = true;
            for (auto* q : G->th) if (q->id && q->st != FINISHED && !(q->detached && G->o.daemon_ok)) all = false;
            if (all) break;
            block("the other threads to finish", (void*)G);
        }
        t_cur = nullptr;
        for (auto* q : G->th) if (q->id && q->st == FINISHED && !q->joined && !q->detached)
            die_violation("leaked-thread", "thread " + std::to_string(q->id) + " was never joined or detached");
        // detached threads that have finished may still be unwinding; nothing they touch is ours
        for (void* p : G->quarantine) __libc_free(p);
        if (!o.daemon_ok) { for (auto* q : G->th) if (!q->detached) delete q; delete G; }
        G = nullptr;
    }
}

}}  // namespace mc::sched

using namespace mc::sched;

#define PC __builtin_return_address(0)

// ---------------------------------------------------------------- memory
extern "C" {

void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p && live()) { Rt r; forget(p, malloc_usable_size(p), false, nullptr); }
    return p;
}
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    if (p && live()) { Rt r; forget(p, malloc_usable_size(p), false, nullptr); }
    return p;
}
void free(void* p) {
    if (!p) return;
    if (live()) {
        Rt r;
        Cell* c = cell((uint64_t)p >> 3, false);
        if (c && c->freed) violation("double-free", "double free at " + where(PC) + ", freed at " + where(c->fpc));
        forget(p, malloc_usable_size(p), true, PC);
        G->quarantine.push_back(p);
        return;
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (live() && p) {
        void* q = malloc(n);
        if (q) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); free(p); }
        return q;
    }
    void* q = __libc_realloc(p, n);
    if (q && live()) { Rt r; forget(q, malloc_usable_size(q), false, nullptr); }
    return q;
}

// ---------------------------------------------------------------- pthread
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (!live()) return real_pthread_create(out, attr, fn, arg);
    Rt r;
    if ((int)G->th.size() >= kT) { fprintf(stderr, "mc: too many threads\n"); _exit(70); }
    Thread* t = new Thread();
    t->id = (int)G->th.size();
    t->st = RUNNABLE; t->futex = 0; t->fn = fn; t->arg = arg; t->deadline = INT64_MAX;
    t->detached = t->joined = t->yielding = t->cond_wait = t->has_pred = false; t->ignore = 0; t->what = nullptr; t->obj = nullptr;
    t->acq_pending.clear(); t->rel_fence.clear();
    t->vc = t_cur->vc;
    t->vc.c[t->id] = 1;
    tick(t_cur);
    if (G->o.pool) {
        if (!g_pool) g_pool = new std::vector<Worker*>();
        Worker* w = nullptr;
        for (;;) {
            for (auto* q : *g_pool) if (q->used != g_exec && __atomic_load_n(&q->idle, __ATOMIC_ACQUIRE)) { w = q; break; }
            if (w || g_pool->size() < 2 * kT) break;
            syscall(SYS_sched_yield);
        }
        if (!w) {
            w = new Worker();
            int e = real_pthread_create(&w->os, nullptr, worker_main, w);
            if (e) { fprintf(stderr, "mc: pthread_create failed %d\n", e); _exit(70); }
            g_pool->push_back(w);
        }
        w->used = g_exec; w->idle = 0; w->t = t;
        t->os = w->os;
        fwake(&w->job);
    } else {
        int e = real_pthread_create(&t->os, attr, trampoline, t);
        if (e) { fprintf(stderr, "mc: pthread_create failed %d\n", e); _exit(70); }
    }
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    G->th.push_back(t);
    *out = t->os;
    pt();
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    REAL(pthread_join);
    if (!live()) return real_pthread_join(th, ret);
    Rt r;
    Thread* t = nullptr;
    for (auto* q : G->th) if (q->id && !q->joined && pthread_equal(q->os, th)) t = q;
    if (!t) return ESRCH;
    if (t == t_cur) return EDEADLK;
    while (t->st != FINISHED) block("a thread to finish", t);
    acq(t);
    t->joined = true;
    if (G->o.pool) { if (ret) *ret = t->ret; return 0; }
    return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
    REAL(pthread_detach);
    if (!live()) return real_pthread_detach(th);
    Rt r;
    for (auto* q : G->th) if (q->id && !q->joined && !q->detached && pthread_equal(q->os, th)) q->detached = true;
    if (G->o.pool) return 0;
    return real_pthread_detach(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(pthread_mutex_lock);
    if (!live()) return real_pthread_mutex_lock(m);
    Rt r;
    lock_now(m, true, PC, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(pthread_mutex_trylock);
    if (!live()) return real_pthread_mutex_trylock(m);
    Rt r;
    pt();
    check_freed(m, PC, "mutex trylock");
    Mutex& x = mutex_of(m);
    if (x.owner == t_cur->id && is_recursive(m)) { x.count++; return 0; }
    if (x.owner != -1) return EBUSY;
    x.owner = t_cur->id; x.count = 1; t_cur->vc.join(x.vc);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    REAL(pthread_mutex_timedlock);
    if (!live()) return real_pthread_mutex_timedlock(m, ts);
    Rt r;
    pt();
    int64_t d; abs_deadline(CLOCK_REALTIME, ts, d);
    for (;;) {
        Mutex& x = mutex_of(m);
        if (x.owner == -1) { x.owner = t_cur->id; x.count = 1; t_cur->vc.join(x.vc); return 0; }
        if (G->now >= d) return ETIMEDOUT;
        block("a mutex", m, d);
        if (t_cur->timed_out) return ETIMEDOUT;
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(pthread_mutex_unlock);
    if (!live()) return real_pthread_mutex_unlock(m);
    Rt r;
    unlock_now(m, PC);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    REAL(pthread_mutex_init);
    if (live()) { Rt r; G->mx.erase(m); }
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    REAL(pthread_mutex_destroy);
    if (live()) {
        Rt r;
        auto it = G->mx.find(m);
        if (it != G->mx.end()) {
            if (it->second.owner != -1) violation("mutex-destroyed", "a locked mutex is destroyed at " + where(PC));
            G->mx.erase(it);
        }
        return 0;
    }
    return real_pthread_mutex_destroy(m);
}

static void check_cond(void* c, void* pc, const char* what) {
    check_freed(c, pc, what);
    if (G->o.cond_lifetime && G->dead_conds.count(c)) violation("cond-gone", std::string(what) + " on a condition variable that was destroyed, at " + where(pc));
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, void* pc) {
    pt();
    check_cond(c, pc, "condition wait");
    Mutex& x = mutex_of(m);
    if (x.owner != t_cur->id) violation("cond-wait-unlocked", "condition wait without holding the mutex at " + where(pc));
    int saved = x.count;
    x.count = 1;
    unlock_now(m, pc);
    Thread* me = t_cur;
    me->st = BLOCKED;
    block("a condition variable", c, deadline, true);
    bool to = me->timed_out && !me->woken;
    lock_now(m, false, pc);
    mutex_of(m).count = saved;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(pthread_cond_wait);
    if (!live()) return real_pthread_cond_wait(c, m);
    Rt r;
    return cond_wait_impl(c, m, INT64_MAX, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    REAL(pthread_cond_timedwait);
    if (!live()) return real_pthread_cond_timedwait(c, m, ts);
    Rt r;
    int64_t d; abs_deadline(CLOCK_REALTIME, ts, d);
    return cond_wait_impl(c, m, d, PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!live()) {
        static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
        return f(c, m, k, ts);
    }
    Rt r;
    int64_t d; abs_deadline(k, ts, d);
    return cond_wait_impl(c, m, d, PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(pthread_cond_signal);
    if (!live()) return real_pthread_cond_signal(c);
    Rt r;
    pt();
    check_cond(c, PC, "condition notify");
    std::vector<Thread*> w;
    for (auto* t : G->th) if (t->st == BLOCKED && t->cond_wait && t->obj == c) w.push_back(t);
    if (!w.empty()) {
        Thread* t = w[w.size() == 1 ? 0 : G->c->choose((int)w.size())];
        t->woken = true; t->cond_wait = false; make_runnable(t);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(pthread_cond_broadcast);
    if (!live()) return real_pthread_cond_broadcast(c);
    Rt r;
    pt();
    check_cond(c, PC, "condition notify");
    for (auto* t : G->th) if (t->st == BLOCKED && t->cond_wait && t->obj == c) { t->woken = true; t->cond_wait = false; make_runnable(t); }
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    REAL(pthread_cond_init);
    return real_pthread_cond_init(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
    REAL(pthread_cond_destroy);
    if (live()) {
        Rt r;
        for (auto* t : G->th) if (t->st == BLOCKED && t->cond_wait && t->obj == c)
            violation("cond-destroyed", "a condition variable with waiters is destroyed at " + where(PC));
        if (G->o.cond_lifetime) G->dead_conds.insert(c);
        return 0;
    }
    return real_pthread_cond_destroy(c);
}

// reader/writer locks
static RW& rw_of(void* p) {
    auto it = G->rw.find(p);
    if (it == G->rw.end()) { it = G->rw.emplace(p, RW()).first; it->second.wvc.clear(); it->second.rvc.clear(); }
    return it->second;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_rdlock);
    if (!live()) return real_pthread_rwlock_rdlock(m);
    Rt r;
    pt();
    for (;;) {
        check_freed(m, PC, "read lock");
        RW& x = rw_of(m);
        if (x.writer == -1) { x.readers++; x.rd.insert(t_cur->id); t_cur->vc.join(x.wvc); return 0; }
        if (x.writer == t_cur->id) violation("deadlock", "thread read-locks a lock it holds for writing at " + where(PC));
        block("a read lock", m);
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_tryrdlock);
    if (!live()) return real_pthread_rwlock_tryrdlock(m);
    Rt r;
    pt();
    RW& x = rw_of(m);
    if (x.writer != -1) return EBUSY;
    x.readers++; x.rd.insert(t_cur->id); t_cur->vc.join(x.wvc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_wrlock);
    if (!live()) return real_pthread_rwlock_wrlock(m);
    Rt r;
    pt();
    for (;;) {
        check_freed(m, PC, "write lock");
        RW& x = rw_of(m);
        if (x.writer == -1 && x.readers == 0) { x.writer = t_cur->id; t_cur->vc.join(x.wvc); t_cur->vc.join(x.rvc); return 0; }
        if (x.writer == t_cur->id || x.rd.count(t_cur->id)) violation("deadlock", "thread write-locks a lock it already holds at " + where(PC));
        block("a write lock", m);
    }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_trywrlock);
    if (!live()) return real_pthread_rwlock_trywrlock(m);
    Rt r;
    pt();
    RW& x = rw_of(m);
    if (x.writer != -1 || x.readers) return EBUSY;
    x.writer = t_cur->id; t_cur->vc.join(x.wvc); t_cur->vc.join(x.rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_unlock);
    if (!live()) return real_pthread_rwlock_unlock(m);
    Rt r;
    check_freed(m, PC, "lock release");
    RW& x = rw_of(m);
    if (x.writer == t_cur->id) { x.writer = -1; x.wvc.join(t_cur->vc); tick(t_cur); }
    else if (x.readers > 0 && x.rd.count(t_cur->id)) { x.readers--; x.rd.erase(t_cur->id); x.rvc.join(t_cur->vc); tick(t_cur); }
    else violation("bad-unlock", "unlock of a reader/writer lock not held at " + where(PC));
    for (auto* t : G->th) if (t->st == BLOCKED && t->obj == m) { t->woken = true; make_runnable(t); }
    return 0;
}

// spin locks
int pthread_spin_lock(pthread_spinlock_t* m) {
    REAL(pthread_spin_lock);
    if (!live()) return real_pthread_spin_lock(m);
    Rt r;
    lock_now((void*)m, true, PC);
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    REAL(pthread_spin_trylock);
    if (!live()) return real_pthread_spin_trylock(m);
    Rt r;
    pt();
    Mutex& x = mutex_of((void*)m);
    if (x.owner != -1) return EBUSY;
    x.owner = t_cur->id; x.count = 1; t_cur->vc.join(x.vc);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    REAL(pthread_spin_unlock);
    if (!live()) return real_pthread_spin_unlock(m);
    Rt r;
    unlock_now((void*)m, PC);
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    REAL(pthread_once);
    if (!live()) return real_pthread_once(o, fn);
    {
        Rt r;
        pt();
        for (;;) {
            if (*(int*)o == 2) { acq(o); return 0; }
            Guard& g = G->guards[o];
            if (g.owner == -1) { g.owner = t_cur->id; break; }
            block("a one-time initialisation", o);
        }
    }
    try { fn(); }
    catch (...) {
        Rt r;
        G->guards[o].owner = -1;
        wake_all(o);
        throw;
    }
    Rt r;
    *(int*)o = 2;
    rel(o);
    G->guards[o].owner = -1;
    wake_all(o);
    return 0;
}

int __cxa_guard_acquire(long long int* g) {
    if (!live()) {
        static auto f = (int (*)(long long int*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
        return f(g);
    }
    Rt r;
    pt();
    for (;;) {
        if (*(char*)g & 1) { acq(g); return 0; }
        Guard& x = G->guards[g];
        if (x.owner == -1) { x.owner = t_cur->id; acq(g); return 1; }
        if (x.owner == t_cur->id) violation("recursive-init", "recursive initialisation of a local static");
        block("initialisation of a local static", g);
    }
}
void __cxa_guard_release(long long int* g) {
    if (!live()) {
        static auto f = (void (*)(long long int*))dlsym(RTLD_NEXT, "__cxa_guard_release");
        return f(g);
    }
    Rt r;
    *(char*)g = 1;
    rel(g);
    G->guards[g].owner = -1;
    wake_all(g);
}
void __cxa_guard_abort(long long int* g) {
    if (!live()) {
        static auto f = (void (*)(long long int*))dlsym(RTLD_NEXT, "__cxa_guard_abort");
        return f(g);
    }
    Rt r;
    rel(g);
    G->guards[g].owner = -1;
    wake_all(g);
}

// ---------------------------------------------------------------- time
static void sleep_until(int64_t d) {
    pt();
    if (G->now >= d) return;
    block("time to pass", nullptr, d);
}
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!live() || (k != CLOCK_REALTIME && k != CLOCK_MONOTONIC && k != CLOCK_REALTIME_COARSE && k != CLOCK_MONOTONIC_COARSE && k != CLOCK_BOOTTIME && k != CLOCK_MONOTONIC_RAW))
        return (int)syscall(SYS_clock_gettime, k, ts);
    Rt r;
    G->now += G->clock_step;
    int64_t v = G->now - clock_off(k);
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    int e = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return e;
}
time_t time(time_t* t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* rq, struct timespec* rm) {
    if (!live()) return (int)-syscall(SYS_clock_nanosleep, k, flags, rq, rm);
    Rt r;
    int64_t v = (int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec;
    sleep_until(flags & TIMER_ABSTIME ? v + clock_off(k) : G->now + v);
    return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rm) {
    if (!live()) return (int)syscall(SYS_nanosleep, rq, rm);
    Rt r;
    sleep_until(G->now + (int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec ts = {(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
int sched_yield() {
    if (!live()) return (int)syscall(SYS_sched_yield);
    Rt r;
    for (auto* t : G->th) if (t != t_cur) t_cur->ywait |= 1u << t->id;
    G->yields++;
    pt();
    return 0;
}

// ---------------------------------------------------------------- compiler hooks (-fsanitize=thread)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PLAIN(n) \
    void __tsan_read##n(void* a) { if (live()) { Rt r; access(a, n, false, false, PC); } } \
    void __tsan_write##n(void* a) { if (live()) { Rt r; access(a, n, true, false, PC); } } \
    void __tsan_read##n##_pc(void* a, void* pc) { if (live()) { Rt r; access(a, n, false, false, pc); } } \
    void __tsan_write##n##_pc(void* a, void* pc) { if (live()) { Rt r; access(a, n, true, false, pc); } } \
    void __tsan_unaligned_read##n(void* a) { if (live()) { Rt r; access(a, n, false, false, PC); } } \
    void __tsan_unaligned_write##n(void* a) { if (live()) { Rt r; access(a, n, true, false, PC); } } \
    void __tsan_volatile_read##n(void* a) { if (live()) { Rt r; pt(); access(a, n, false, false, PC); } } \
    void __tsan_volatile_write##n(void* a) { if (live()) { Rt r; pt(); access(a, n, true, false, PC); } } \
    void __tsan_unaligned_volatile_read##n(void* a) { if (live()) { Rt r; pt(); access(a, n, false, false, PC); } } \
    void __tsan_unaligned_volatile_write##n(void* a) { if (live()) { Rt r; pt(); access(a, n, true, false, PC); } }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void* a, unsigned long n) { if (live()) { Rt r; access(a, n, false, false, PC); } }
void __tsan_write_range(void* a, unsigned long n) { if (live()) { Rt r; access(a, n, true, false, PC); } }
void __tsan_vptr_update(void** a, void*) { if (live()) { Rt r; access(a, 8, true, false, PC); } }
void __tsan_vptr_read(void** a) { if (live()) { Rt r; access(a, 8, false, false, PC); } }

}  // extern "C"

namespace {
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void at_load(void* a, int mo) {
    VC& v = sync_of(a);
    if (is_acq(mo)) t_cur->vc.join(v); else t_cur->acq_pending.join(v);
}
void at_store(void* a, int mo) {
    VC& v = sync_of(a);
    if (is_rel(mo)) v = t_cur->vc; else v = t_cur->rel_fence;
    tick(t_cur);
}
void at_rmw(void* a, int mo) {
    VC& v = sync_of(a);
    if (is_acq(mo)) t_cur->vc.join(v); else t_cur->acq_pending.join(v);
    v.join(is_rel(mo) ? t_cur->vc : t_cur->rel_fence);
    tick(t_cur);
}
}  // namespace

#define ATOMICS(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), false, true, PC); at_load((void*)a, mo); } \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_store((void*)a, mo); } \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
    if (live()) { Rt r; pt(); access((void*)a, sizeof(T), true, true, PC); at_rmw((void*)a, mo); } \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
static bool cas##bits(volatile T* a, T* e, T v, int mo, int fmo, void* pc) { \
    if (live()) { \
        Rt r; pt(); \
        bool ok = __atomic_load_n(a, __ATOMIC_SEQ_CST) == *e; \
        access((void*)a, sizeof(T), ok, true, pc); \
        if (ok) at_rmw((void*)a, mo); else at_load((void*)a, fmo); \
    } \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, PC); } \
extern "C" bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, PC); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##bits(a, &e, v, mo, fmo, PC); return e; }

ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (live()) {
        Rt r; pt();
        if (is_acq(mo)) t_cur->vc.join(t_cur->acq_pending);
        if (is_rel(mo)) { t_cur->rel_fence = t_cur->vc; tick(t_cur); }
        if (mo == __ATOMIC_SEQ_CST) { static int f; acq(&f); rel(&f); }
    }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented code (linked with --wrap)
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (live()) { Rt r; access((void*)s, n, false, false, PC); access(d, n, true, false, PC); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (live()) { Rt r; access((void*)s, n, false, false, PC); access(d, n, true, false, PC); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (live()) { Rt r; access(d, n, true, false, PC); }
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (live()) { Rt r; access((void*)a, n, false, false, PC); access((void*)b, n, false, false, PC); }
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    if (live()) { Rt r; access((void*)s, n + 1, false, false, PC); }
    return n;
}
}
