#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <typeinfo>
#include <cxxabi.h>

#define MCNT __attribute__((no_sanitize("thread")))

namespace mc {
thread_local int heap_paused = 0;

namespace {

constexpr int kMaxDepth = 16384;
constexpr int kMaxWorkers = 16;
constexpr int kQueue = 64;
constexpr size_t kTable = 1u << 22;
constexpr int kSampleCap = 6;
constexpr size_t kSampleLen = 6000;
constexpr int kKnownCap = 64;

double now_s() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Choice { uint16_t c, n; };

struct Task {
    int len;          // number of valid entries in ch; the last is the root to increment from
    Choice ch[kMaxDepth];
};

struct WorkerShm {
    std::atomic<uint64_t> beat;
    std::atomic<int> len;         // live trace of the current execution
    Choice ch[kMaxDepth];
    int failed;                   // 1: fail() was called, 2: nondeterminism, 3: internal error
    char key[512];
    char msg[8192];
};

struct Shm {
    std::atomic<uint32_t> lock;
    std::atomic<int> idle;
    std::atomic<int> stop;
    std::atomic<int> capped;
    int qlen;
    std::atomic<uint64_t> executions, transitions, states, outcomes, choices, maxdepth;
    std::atomic<uint64_t> table_full;
    std::atomic<int> nsamples;
    char samples[kSampleCap][kSampleLen];
    std::atomic<int> nknown;
    char known[kKnownCap][1024];
    WorkerShm w[kMaxWorkers];
    Task q[kQueue];
    alignas(4096) std::atomic<uint64_t> table[kTable];
    alignas(4096) std::atomic<uint64_t> otable[1 << 16];
};

Shm* S = nullptr;
int W = 0;                         // index of this worker
std::vector<Choice> tr;            // trace (prefix to replay, then extended)
size_t pos = 0;
bool g_active = false;
bool g_logging = false;
std::string g_logbuf;
bool g_thorough = false;
uint64_t g_exec = 0;
std::set<std::string> g_known_keys;
std::string g_property;
Ctx g_ctx;
const Scenario* g_sc = nullptr;
bool g_replay_mode = false;
double g_deadline = 0;

struct KnownHit {};

void lock() {
    while (S->lock.exchange(1)) sched_yield();
}
void unlock() { S->lock.store(0); }

[[noreturn]] void die_error(const std::string& m) {
    WorkerShm& w = S->w[W];
    w.failed = 3;
    snprintf(w.msg, sizeof w.msg, "%s", m.c_str());
    _exit(70);
}

void insert(std::atomic<uint64_t>* t, size_t n, uint64_t h, std::atomic<uint64_t>& count) {
    if (h == 0) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) & (n - 1);
    for (size_t k = 0; k < 64; ++k) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return;
        if (cur == 0) {
            if (t[i].compare_exchange_strong(cur, h)) { count++; return; }
            if (cur == h) return;
        }
        i = (i + 1) & (n - 1);
    }
    S->table_full++;
}

}  // namespace

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed) {
    const unsigned char* b = (const unsigned char*)p;
    uint64_t h = seed ^ (n * 0xff51afd7ed558ccdull);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}

std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

bool thorough() { return g_thorough; }
Ctx& ctx() { return g_ctx; }
bool active() { return g_active; }
struct HeapPause { HeapPause() { ++heap_paused; } ~HeapPause() { --heap_paused; } };
bool Ctx::thorough() const { return g_thorough; }
bool Ctx::logging() const { return g_logging; }
uint64_t Ctx::exec_index() const { return g_exec; }
void Ctx::log(const std::string& s) {
    HeapPause hp;
    if (g_logging) {
        if (g_replay_mode) { fprintf(stderr, "  | %s\n", s.c_str()); }
        if (g_logbuf.size() < kSampleLen - 200) { g_logbuf += s; g_logbuf += "; "; }
    }
}
void Ctx::step(uint64_t k) { S->w[W].beat.fetch_add(1, std::memory_order_relaxed); S->transitions.fetch_add(k, std::memory_order_relaxed); }
void Ctx::state(uint64_t h) { insert(S->table, kTable, h, S->states); }
void Ctx::state(const std::string& s) { state(hash_str(s)); }
void Ctx::outcome(const std::string& s) { insert(S->otable, 1 << 16, hash_str(s), S->outcomes); }

int Ctx::choose(int n) {
    HeapPause hp;
    if (n <= 0) die_error("choose(0)");
    if (n == 1) return 0;
    if (n > 65535) die_error("choose: too many alternatives");
    WorkerShm& w = S->w[W];
    if (pos < tr.size()) {
        Choice& c = tr[pos];
        if (c.n == 0) c.n = (uint16_t)n;          // replay files carry no widths
        if (c.n != n || c.c >= n) {
            w.failed = 2;
            snprintf(w.msg, sizeof w.msg, "replay divergence at decision %zu: %d alternatives, expected %d",
                     pos, n, (int)c.n);
            _exit(71);
        }
    } else {
        if (tr.size() >= (size_t)kMaxDepth) die_error("decision depth exceeded");
        tr.push_back({0, (uint16_t)n});
    }
    w.ch[pos] = tr[pos];
    w.len.store((int)pos + 1, std::memory_order_relaxed);
    w.beat.fetch_add(1, std::memory_order_relaxed);
    return tr[pos++].c;
}

int Ctx::choose(int n, const char* what) {
    int c = choose(n);
    if (g_logging) log(std::string(what) + "=" + std::to_string(c));
    return c;
}

bool Ctx::known(const std::string& key) {
    if (!g_known_keys.count(key)) return false;
    lock();
    int n = S->nknown;
    bool seen = false;
    for (int i = 0; i < n; ++i) if (key == S->known[i]) seen = true;
    if (!seen && n < kKnownCap) {
        snprintf(S->known[n], sizeof S->known[n], "%s", key.c_str());
        S->nknown = n + 1;
    }
    unlock();
    return true;
}

void die_violation(const std::string& key, const std::string& msg) {
    WorkerShm& w = S->w[W];
    w.failed = 1;
    snprintf(w.key, sizeof w.key, "%s", key.c_str());
    snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
    _exit(1);
}

void Ctx::fail(const std::string& key, const std::string& msg) {
    if (known(key)) throw KnownHit{};
    die_violation(key, msg);
}

namespace {

void on_terminate() {
    std::string what = "std::terminate called";
    if (auto p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch (const std::exception& e) { what = std::string("uncaught exception: ") + e.what(); }
        catch (const Violation& v) { die_violation(v.key, v.msg); }
        catch (...) { what = "uncaught exception of unknown type"; }
    }
    if (S && g_active) die_violation("terminate", what);
    _exit(72);
}

// Runs the scenario body once along `tr`.
void run_body() {
    pos = 0;
    g_logbuf.clear();
    WorkerShm& w = S->w[W];
    w.len.store(0);
    w.failed = 0;
    g_active = true;
    try {
        g_sc->body(g_ctx);
    } catch (const KnownHit&) {
    } catch (const Abandon&) {
    } catch (const Violation& v) {
        g_active = false;
        if (!g_ctx.known(v.key)) die_violation(v.key, v.msg);
    } catch (const std::exception& e) {
        die_violation(std::string("exception"), std::string("exception escaped: ") + e.what());
    } catch (...) {
        die_violation("exception", "exception of unknown type escaped");
    }
    g_active = false;
    if (pos < tr.size()) {
        w.failed = 2;
        snprintf(w.msg, sizeof w.msg, "replay divergence: execution ended after %zu of %zu decisions", pos, tr.size());
        _exit(71);
    }
}

struct Pipe { int fd[2]; };

// One execution in its own process; the trace comes back through shared memory.
void run_forked() {
    WorkerShm& w = S->w[W];
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) die_error("fork failed");
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run_body();
        w.len.store((int)tr.size());
        memcpy(w.ch, tr.data(), tr.size() * sizeof(Choice));
        if (g_logging) {
            // hand the log over through the message buffer
            snprintf(w.msg, sizeof w.msg, "%s", g_logbuf.c_str());
        }
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        tr.assign(w.ch, w.ch + w.len.load());
        if (g_logging) g_logbuf = w.msg;
        return;
    }
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
    // killed by a signal: die the same way
    _exit(128 + WTERMSIG(st));
}

void after_execution(size_t) {
    S->w[W].beat++;
    S->executions++;
    S->choices += tr.size();
    uint64_t d = tr.size(), m = S->maxdepth.load();
    while (d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
    ++g_exec;
}

bool want_sample(uint64_t e) { return e == 0 || e == 3 || e == 17 || e == 97; }

}  // namespace

namespace {

// Explores the subtree below tr[0..root) where tr[root] may be advanced.
void explore(size_t root, int nworkers) {
    std::vector<uint16_t> limit;  // exclusive upper bound on choices per level (after donations)
    for (;;) {
        if (S->stop.load()) return;
        if (g_deadline > 0 && now_s() > g_deadline) { S->capped = 1; S->stop = 1; return; }
        g_logging = want_sample(g_exec) && S->nsamples.load() < kSampleCap;
        if (g_sc->fork_each) run_forked(); else run_body();
        if (g_logging) {
            int k = S->nsamples.fetch_add(1);
            if (k < kSampleCap) {
                std::string s = "[" + g_sc->name + "] choices";
                for (auto& c : tr) { s += ' '; s += std::to_string(c.c); if (s.size() > 1500) { s += " ..."; break; } }
                s += " :: " + g_logbuf;
                snprintf(S->samples[k], kSampleLen, "%s", s.c_str());
            } else {
                S->nsamples = kSampleCap;
            }
        }
        after_execution(root);
        limit.resize(std::min(limit.size(), tr.size()));
        while (limit.size() < tr.size()) limit.push_back(tr[limit.size()].n);
        // donate
        if (nworkers > 1 && S->idle.load() > 0) {
            for (size_t i = root; i < tr.size(); ++i) {
                if (tr[i].c + 1 < limit[i]) {
                    lock();
                    if (S->qlen < kQueue && S->qlen < S->idle.load() * 2) {
                        Task& t = S->q[S->qlen++];
                        t.len = (int)i + 1;
                        memcpy(t.ch, tr.data(), (i + 1) * sizeof(Choice));
                        t.ch[i].c++;
                        limit[i] = tr[i].c + 1;
                    }
                    unlock();
                    break;
                }
            }
        }
        // advance
        size_t i = tr.size();
        while (i > root) {
            --i;
            if (tr[i].c + 1 < limit[i]) {
                tr[i].c++;
                tr.resize(i + 1);
                limit.resize(i + 1);
                goto next;
            }
        }
        return;
      next:;
    }
}

void worker(int nworkers) {
    int cpu = W;
    cpu_set_t set;
    CPU_ZERO(&set);
    long nc = sysconf(_SC_NPROCESSORS_ONLN);
    if (nc > 0) { CPU_SET(cpu % nc, &set); sched_setaffinity(0, sizeof set, &set); }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::set_terminate(on_terminate);
    bool counted_idle = true;   // the parent starts idle at nworkers
    for (;;) {
        bool got = false;
        size_t root = 0;
        lock();
        if (S->qlen > 0) {
            Task& t = S->q[--S->qlen];
            tr.assign(t.ch, t.ch + t.len);
            root = t.len ? t.len - 1 : 0;
            got = true;
            S->idle--;
            counted_idle = false;
        }
        unlock();
        if (got) {
            explore(root, nworkers);
            lock(); S->idle++; unlock();
            counted_idle = true;
            continue;
        }
        if (S->stop.load()) break;
        lock();
        bool done = S->qlen == 0 && S->idle.load() == nworkers;
        unlock();
        if (done) break;
        S->w[W].beat++;
        usleep(200);
    }
    (void)counted_idle;
    _exit(0);
}

std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

std::string signame(int s) {
    const char* n = sigabbrev_np(s);
    return n ? std::string("SIG") + n : std::to_string(s);
}

struct Outcome {
    int kind = 0;   // 0 ok, 1 violation, 2 nondeterminism, 3 error, 4 hang
    std::string key, msg;
    std::vector<Choice> trace;
};

// Turn the end of a process into an outcome.
Outcome classify(int st, WorkerShm& w, bool hang) {
    Outcome o;
    o.trace.assign(w.ch, w.ch + w.len.load());
    if (hang) { o.kind = 4; o.key = "hang"; o.msg = "execution made no progress"; return o; }
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == 0) return o;
        if (e == 1 && w.failed == 1) { o.kind = 1; o.key = w.key; o.msg = w.msg; return o; }
        if (e == 71) { o.kind = 2; o.msg = w.msg; return o; }
        if (e == 70) { o.kind = 3; o.msg = w.msg; return o; }
        if (e > 128 && e < 128 + 65) {
            o.kind = 1; o.key = "crash"; o.msg = "implementation crashed with " + signame(e - 128);
            return o;
        }
        o.kind = 1; o.key = "exit";
        o.msg = "process ended with status " + std::to_string(e) + " (sanitizer report or exit() in the implementation)";
        return o;
    }
    o.kind = 1; o.key = "crash";
    o.msg = "implementation crashed with " + signame(WTERMSIG(st));
    return o;
}

// Runs one trace in a fresh process; stderr goes to `errfile` if given.
// With `serial` the whole scenario is explored by that one process, in the fixed order of the tree, for
// what depends on what earlier executions left behind in the process.
Outcome run_once(const Scenario& sc, const std::vector<Choice>& trace, const char* errfile, bool verbose,
                 double serial = 0) {
    WorkerShm& w = S->w[0];
    w.failed = 0; w.len = 0; w.key[0] = w.msg[0] = 0; w.beat = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (errfile) {
            int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        }
        W = 0; g_sc = &sc; tr = trace;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        std::set_terminate(on_terminate);
        if (serial > 0) {
            S->stop = 0; S->idle = 0; S->nsamples = kSampleCap;
            g_deadline = now_s() + serial;
            tr.clear();
            explore(0, 1);
            _exit(0);
        }
        g_replay_mode = verbose; g_logging = verbose;
        run_body();
        _exit(0);
    }
    double t0 = now_s();
    uint64_t seen = 0;
    int st = 0;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (serial > 0 && w.beat != seen) { seen = w.beat; t0 = now_s(); }
        if (now_s() - t0 > sc.hang_s * 3) {
            kill(-p, SIGKILL); kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return classify(st, w, true);
        }
        usleep(500);
    }
    return classify(st, w, false);
}

}  // namespace

int run(int argc, char** argv, const std::string& property, const std::vector<Scenario>& scenarios,
        const std::vector<std::string>& assumptions) {
    std::string evidence, knownf, replay, only, outdir = ".";
    int nworkers = 8;
    double budget = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--thorough") g_thorough = true;
        else if (a == "--evidence") evidence = val();
        else if (a == "--known") knownf = val();
        else if (a == "--replay") replay = val();
        else if (a == "--only") only = val();
        else if (a == "--outdir") outdir = val();
        else if (a == "--workers") nworkers = std::max(1, std::min(kMaxWorkers, atoi(val().c_str())));
        else if (a == "--budget") budget = atof(val().c_str());
    }
    g_property = property;
    S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 70; }

    std::map<std::string, std::string> known_text;
    if (!knownf.empty()) {
        // "finding: property=C01 key=<key> :: text"
        std::ifstream f(knownf);
        std::string line;
        while (std::getline(f, line)) {
            std::string pre = "finding: property=" + property + " key=";
            if (line.compare(0, pre.size(), pre) == 0) {
                auto e = line.find(" :: ");
                std::string key = line.substr(pre.size(), e == std::string::npos ? std::string::npos : e - pre.size());
                known_text[key] = e == std::string::npos ? key : line.substr(e + 4);
                g_known_keys.insert(key);
            }
        }
    }

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string name, line;
        std::vector<Choice> t;
        bool serial = false;
        while (std::getline(f, line)) {
            if (line.compare(0, 9, "scenario ") == 0) name = line.substr(9);
            if (line.compare(0, 5, "tier ") == 0) g_thorough = line.substr(5) == "thorough";
            if (line == "serial") serial = true;
            if (line.compare(0, 7, "choices") == 0) {
                std::istringstream is(line.substr(7));
                int c;
                while (is >> c) t.push_back({(uint16_t)c, 0});
            }
        }
        for (auto& sc : scenarios) if (sc.name == name) {
            Outcome o = run_once(sc, t, nullptr, true, serial ? 600 : 0);
            printf("replay of %s: %s%s\n", name.c_str(), o.kind == 0 ? "no violation" : o.kind == 1 || o.kind == 4 ? "VIOLATION " : "error ", o.msg.c_str());
            return o.kind == 0 ? 0 : (o.kind == 1 || o.kind == 4) ? 1 : 70;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 70;
    }

    double t_start = now_s();
    if (budget > 0) g_deadline = t_start + budget;
    struct ScStat { std::string name, bounds; uint64_t ex, tr, st, oc, ch, md; bool capped; double wall; };
    std::vector<ScStat> stats;
    std::vector<std::string> samples;
    std::set<std::string> known_hit;
    int exit_code = 0;
    int violations = 0;
    std::string error;

    int stalls = 0;   // attempts lost to a worker that stood still without reproducing it (a stalled machine)
    for (size_t si = 0; si < scenarios.size(); ++si) {
        const Scenario& sc = scenarios[si];
        if (!only.empty() && sc.name != only) continue;
        double t0 = now_s();
        // fresh shared counters and tables
        S->stop = 0; S->qlen = 0; S->capped = 0;
        S->executions = S->transitions = S->states = S->outcomes = S->choices = S->maxdepth = 0;
        S->table_full = 0;
        S->nsamples = 0;
        S->lock = 0;
        for (auto& e : S->otable) e = 0;
        if (madvise(S->table, sizeof S->table, MADV_REMOVE) != 0) for (auto& e : S->table) e = 0;
        S->q[0].len = 0;
        S->qlen = 1;
        S->idle = nworkers;
        for (int i = 0; i < nworkers; ++i) { S->w[i].beat = 0; S->w[i].failed = 0; S->w[i].len = 0; }
        g_sc = &sc;
        std::string errbase = outdir + "/stderr." + property;
        std::vector<pid_t> pids(nworkers);
        fflush(stdout); fflush(stderr);
        for (int i = 0; i < nworkers; ++i) {
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                std::string ef = errbase + "." + std::to_string(i);
                int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
                W = i;
                worker(nworkers);
            }
            setpgid(p, p);
            pids[i] = p;
        }
        std::vector<bool> gone(nworkers, false);
        std::vector<uint64_t> beats(nworkers, 0);
        std::vector<double> last(nworkers, now_s());
        int left = nworkers;
        Outcome bad;
        while (left > 0) {
            bool any = false;
            for (int i = 0; i < nworkers; ++i) {
                if (gone[i]) continue;
                int st;
                pid_t r = waitpid(pids[i], &st, WNOHANG);
                if (r == pids[i]) {
                    gone[i] = true; --left; any = true;
                    Outcome o = classify(st, S->w[i], false);
                    if (o.kind && !bad.kind) { bad = o; S->stop = 1; }
                    continue;
                }
                uint64_t b = S->w[i].beat;
                if (b != beats[i]) { beats[i] = b; last[i] = now_s(); }
                else if (now_s() - last[i] > sc.hang_s * (1 + stalls)) {
                    kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL);
                    waitpid(pids[i], &st, 0);
                    gone[i] = true; --left; any = true;
                    if (!bad.kind) { bad = classify(st, S->w[i], true); S->stop = 1; }
                }
            }
            if (bad.kind) {
                // give the others a moment, then end them
                double t1 = now_s();
                while (left > 0 && now_s() - t1 < 0.5) {
                    for (int i = 0; i < nworkers; ++i) if (!gone[i]) {
                        int st;
                        if (waitpid(pids[i], &st, WNOHANG) == pids[i]) { gone[i] = true; --left; }
                    }
                    usleep(1000);
                }
                for (int i = 0; i < nworkers; ++i) if (!gone[i]) {
                    kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL);
                    int st; waitpid(pids[i], &st, 0);
                    gone[i] = true; --left;
                }
                break;
            }
            if (!any) usleep(2000);
        }
        for (int i = 0; i < S->nsamples.load() && i < kSampleCap; ++i)
            if (samples.size() < 12) samples.push_back(S->samples[i]);
        for (int i = 0; i < S->nknown.load(); ++i) known_hit.insert(S->known[i]);
        stalls = bad.kind == 4 ? stalls : 0;
        stats.push_back({sc.name, sc.bounds, S->executions, S->transitions, S->states, S->outcomes, S->choices,
                         S->maxdepth, S->capped.load() != 0, now_s() - t0});
        if (bad.kind == 0 && S->executions.load() <= 1 && sc.expect_branch)
            error = "scenario " + sc.name + " explored a single execution";
        printf("scenario %-34s executions %-10llu transitions %-11llu states %-9llu outcomes %-6llu depth %-4llu %s%.2fs\n",
               sc.name.c_str(), (unsigned long long)S->executions, (unsigned long long)S->transitions,
               (unsigned long long)S->states, (unsigned long long)S->outcomes, (unsigned long long)S->maxdepth,
               S->capped ? "CAPPED " : "", now_s() - t0);
        fflush(stdout);
        if (bad.kind) {
            if (bad.kind == 2 || bad.kind == 3) {
                error = "scenario " + sc.name + ": " + bad.msg;
                break;
            }
            std::string path = outdir + "/" + property + "." + sc.name + ".replay";
            for (auto& c : path) if (c == ' ') c = '_';
            {
                std::ofstream f(path);
                f << "property " << property << "\nscenario " << sc.name << "\ntier "
                  << (g_thorough ? "thorough" : "quick") << "\nchoices";
                for (auto& c : bad.trace) f << ' ' << c.c;
                f << "\nkey " << bad.key << "\nmessage " << bad.msg << "\n";
            }
            // replay before report
            std::string logf = path + ".log";
            for (auto& c : bad.trace) (void)c;
            Outcome again = run_once(sc, bad.trace, logf.c_str(), true);
            if (again.kind == 0 && bad.kind == 4 && stalls < 2) {
                printf("scenario %s stood still but does not when replayed: explored again\n", sc.name.c_str());
                ++stalls; --si; stats.pop_back();
                continue;
            }
            if (again.kind == 0 && bad.kind == 1) {
                // the outcome of this execution alone is right: does it depend on what ran before it?
                double limit = std::min(240.0, 20 + 12 * (now_s() - t0));
                Outcome serial = run_once(sc, {}, logf.c_str(), false, limit);
                if (serial.kind == 1) {
                    again = bad = serial;
                    bad.msg += " (only after the executions before it in the same process)";
                    std::ofstream f(path);
                    f << "property " << property << "\nscenario " << sc.name << "\ntier "
                      << (g_thorough ? "thorough" : "quick") << "\nserial\nchoices";
                    for (auto& c : bad.trace) f << ' ' << c.c;
                    f << "\nkey " << bad.key << "\nmessage " << bad.msg << "\n";
                }
            }
            if (again.kind != 1 && again.kind != 4) {
                error = "scenario " + sc.name + ": a violation (" + bad.msg + ") did not reproduce on replay" +
                        (again.msg.empty() ? "" : ": " + again.msg);
                break;
            }
            printf("violation in scenario %s: key=%s: %s\n", sc.name.c_str(), bad.key.c_str(), bad.msg.c_str());
            {
                std::ifstream lf(logf);
                std::string line;
                int n = 0;
                while (std::getline(lf, line) && n++ < 60) printf("    %s\n", line.c_str());
            }
            printf("VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str());
            violations = 1;
            exit_code = 1;
            break;
        }
    }
    for (auto& k : known_hit)
        printf("KNOWN-FINDING: property=%s key=%s %s\n", property.c_str(), k.c_str(), known_text[k].c_str());
    double wall = now_s() - t_start;
    uint64_t ex = 0, trn = 0, st = 0, oc = 0;
    bool capped = false;
    for (auto& s : stats) { ex += s.ex; trn += s.tr; st += s.st; oc += s.oc; capped |= s.capped; }
    if (!evidence.empty() && error.empty()) {
        std::ofstream f(evidence);
        const char* seed = getenv("VERIF_SEED");
        f << "{\n \"property\": \"" << property << "\",\n \"tier\": \"" << (g_thorough ? "thorough" : "quick")
          << "\",\n \"seed\": " << (seed ? atoi(seed) : 1) << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
          << "  \"states\": " << st << ",\n  \"transitions\": " << trn
          << ",\n  \"traces_validated_against_impl\": " << ex << ",\n  \"distinct_outcomes\": " << oc
          << ",\n  \"exhaustive\": " << (capped || exit_code ? "false" : "true") << ",\n  \"scenarios\": [\n";
        for (size_t i = 0; i < stats.size(); ++i) {
            auto& s = stats[i];
            f << "   {\"name\": \"" << json_escape(s.name) << "\", \"bounds\": \"" << json_escape(s.bounds)
              << "\", \"executions\": " << s.ex << ", \"transitions\": " << s.tr << ", \"states\": " << s.st
              << ", \"outcomes\": " << s.oc << ", \"decisions\": " << s.ch << ", \"max_depth\": " << s.md
              << ", \"completed\": " << (s.capped ? "false" : "true") << ", \"wall_s\": " << s.wall << "}"
              << (i + 1 < stats.size() ? "," : "") << "\n";
        }
        f << "  ],\n  \"samples\": [\n";
        for (size_t i = 0; i < samples.size(); ++i)
            f << "   \"" << json_escape(samples[i]) << "\"" << (i + 1 < samples.size() ? "," : "") << "\n";
        f << "  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); ++i)
            f << (i ? ", " : "") << "\"" << json_escape(assumptions[i]) << "\"";
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    if (!error.empty()) {
        printf("CHECK ERROR property=%s %s\n", property.c_str(), error.c_str());
        return 70;
    }
    if (exit_code == 0)
        printf("OK property=%s executions=%llu transitions=%llu states=%llu outcomes=%llu%s wall=%.1fs\n", property.c_str(),
               (unsigned long long)ex, (unsigned long long)trn, (unsigned long long)st, (unsigned long long)oc,
               capped ? " (budget cap hit)" : "", wall);
    return exit_code;
}

}  // namespace mc
