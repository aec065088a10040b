// C44: signal handlers: histories of installing and delivering on the real process, every delivery point during an installation.
#include "mc.h"
#include "common/base/SignalHandler.h"
#include <csetjmp>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
using mc::Ctx;
using nebula::SignalHandler;
using nebula::Status;
using std::string;
using std::vector;

// ---- the n-th sigaction of the code under test may fail
static bool g_active = false; static int g_failAt = 0, g_calls = 0;
extern "C" int sigaction(int sig, const struct sigaction* act, struct sigaction* old) noexcept {
    static auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
    if (g_active && act && ++g_calls == g_failAt) { errno = ENOMEM; return -1; }
    return real(sig, act, old);
}
static struct sigaction disposition(int sig) { struct sigaction a; memset(&a, 0, sizeof a); bool was = g_active; g_active = false; ::sigaction(sig, nullptr, &a); g_active = was; return a; }
static bool isDefault(int sig) { auto a = disposition(sig); return !(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_DFL; }
static bool isIgnored(int sig) { auto a = disposition(sig); return !(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_IGN; }

// ---- what the handlers saw
struct Run { int handler, sig, pid, uid; char text[200]; };
static Run g_runs[64]; static volatile int g_n = 0;
static SignalHandler::Handler handler(int id) {
    return [id](SignalHandler::GeneralSignalInfo* i) {
        int n = g_n; if (n >= 64) return; g_n = n + 1; auto& r = g_runs[n];
        r.handler = id; r.sig = i->sig(); r.pid = i->pid(); r.uid = i->uid(); snprintf(r.text, sizeof r.text, "%s", i->toString());
    };
}
// another kind of handler: too big to lie in the table itself
static SignalHandler::Handler bigHandler(int id) { auto h = handler(id); char pad[64] = {1}; return [h, pad](SignalHandler::GeneralSignalInfo* i) { if (pad[0] == 1) h(i); }; }
static string name(int sig) { return "signal " + std::to_string(sig); }
static string runs() { string s; for (int i = 0; i < g_n; ++i) s += " handler " + std::to_string(g_runs[i].handler) + " with " + name(g_runs[i].sig); return g_n ? s : " none"; }
static void judge(Ctx& c, int sig, int want, pid_t sender, const string& what) {
    MC_CHECK(c, g_n == (want >= 0), g_n > 1 ? "run-twice" : want >= 0 ? "not-run" : "ran", what + ": ran" + runs() + (want >= 0 ? ", not handler " + std::to_string(want) + " once" : ", not none"));
    if (want < 0) return;
    auto& r = g_runs[0];
    MC_CHECK(c, r.handler == want, "wrong-handler", what + ": ran" + runs() + ", not handler " + std::to_string(want));
    MC_CHECK(c, r.sig == sig, "number", what + ": the handler was told number " + std::to_string(r.sig));
    MC_CHECK(c, r.pid == sender && r.uid == (int)getuid(), "sender", what + ": the handler was told sender " + std::to_string(r.pid) + " of user " + std::to_string(r.uid) + ", not " + std::to_string(sender));
    string t = r.text;
    MC_CHECK(c, t.find("sig[" + std::to_string(sig) + "]") != string::npos && t.find(strsignal(sig)) != string::npos && t.find("pid[" + std::to_string(sender) + "]") != string::npos, "text", what + ": described as " + t);
}
// ways of delivering; gives the pid that sent it
static pid_t deliver(int how, int sig) {
    g_n = 0;
    switch (how) {
        case 0: raise(sig); return getpid();
        case 1: kill(getpid(), sig); return getpid();
        case 2: { sigval v; v.sival_int = 77; sigqueue(getpid(), sig, v); return getpid(); }
        default: {   // from another process
            sigset_t all, old; sigfillset(&all); sigprocmask(SIG_BLOCK, &all, &old);
            pid_t me = getpid(), p = fork(); if (p == 0) { if (sig != SIGCHLD) kill(me, sig); _exit(0); }
            int st; waitpid(p, &st, 0); if (sig != SIGCHLD) { // the end of the child is a signal of its own: taken back
                sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); timespec z{0, 0}; sigtimedwait(&chld, nullptr, &z); }
            sigprocmask(SIG_SETMASK, &old, nullptr); return p;
        }
    }
}
static const char* kHow[] = {"raise", "kill", "sigqueue", "from a child"};

// ---- histories
static void histories(Ctx& c) {
    static const vector<int> kAll{SIGUSR1, SIGPIPE, SIGHUP, SIGCHLD, 64}, kFew{SIGUSR1, SIGHUP, SIGCHLD};
    bool deep = c.thorough() && c.choose(2, "longer"); const auto& S = deep ? kFew : kAll;
    int model[65]; for (auto& m : model) m = -1; bool inited = false;   // -1: as it was
    bool wasDefault[65]; for (int s = 1; s <= 64; ++s) wasDefault[s] = isDefault(s);
    struct sigaction before[65]; for (int s = 1; s <= 64; ++s) before[s] = disposition(s);
    int len = deep ? 4 : 3; g_active = true; int nh = 0; string hist;
    for (int i = 0; i < len; ++i) {
        static const vector<int> kQuick{0, 2, 3}; int op = c.thorough() ? c.choose(5) : c.pick(kQuick); c.step();
        if (op <= 2) {   // install for one signal, by number or in a list; or for two
            int a = c.pick(S), b = op == 2 ? c.pick(S) : 0, h = nh++;
            hist += "; install " + std::to_string(h) + " for " + std::to_string(a) + (b ? "," + std::to_string(b) : "");
            Status st = op == 0 ? SignalHandler::install(a, handler(h)) : op == 1 ? SignalHandler::install(std::initializer_list<int>{a}, handler(h)) : SignalHandler::install({a, b}, handler(h));
            MC_CHECK(c, st.ok(), "install", "installing for " + name(a) + ": " + st.toString());
            inited = true; model[a] = h; if (b) model[b] = h;
        } else if (op == 4) {   // signals the system keeps for itself
            Status st = SignalHandler::install({SIGUSR1, 33, SIGTERM}, handler(nh++)); inited = true; model[SIGUSR1] = nh - 1;
            MC_CHECK(c, !st.ok(), "install-33", "installing for signal 33 reported success");
        } else {
            int s = c.pick(S), how = c.choose(4);
            if (model[s] < 0 && isDefault(s) && s != SIGCHLD) { MC_CHECK(c, !(inited && (s == SIGPIPE || s == SIGHUP)), "not-ignored", name(s) + " is not ignored after an installation"); throw mc::Abandon(); }
            hist += "; " + string(kHow[how]) + " " + std::to_string(s);
            pid_t from = deliver(how, s); judge(c, s, model[s], from, "after" + hist);
            c.outcome("signal " + std::to_string(s) + (model[s] < 0 ? " unhandled" : " handled"));
        }
        for (int s = 1; s <= 64; ++s) {
            if (s == 32 || s == 33 || s == SIGKILL || s == SIGSTOP) continue;
            auto d = disposition(s);
            if (model[s] >= 0) { MC_CHECK(c, d.sa_flags & SA_SIGINFO, "disposition", name(s) + " has no handler after" + hist); }
            else if (inited && (s == SIGPIPE || s == SIGHUP)) MC_CHECK(c, isIgnored(s), "not-ignored", name(s) + " is not ignored after" + hist);
            else MC_CHECK(c, d.sa_handler == before[s].sa_handler && (d.sa_flags & SA_SIGINFO) == (before[s].sa_flags & SA_SIGINFO), "other-changed", name(s) + " changed its disposition after" + hist);
        }
    }
    // every handled signal once more
    g_active = false;
    for (int s : S) if (model[s] >= 0) { pid_t f = deliver(0, s); judge(c, s, model[s], f, "at the end of" + hist); }
}
// every signal on its own, installed once or twice, delivered in every way
static bool fatal(int s) { return s == SIGSEGV || s == SIGABRT || s == SIGILL || s == SIGFPE || s == SIGBUS; }
static void each(Ctx& c) {
    int s = 1 + c.choose(64, "signal"), times = 1 + c.choose(2, "installed once or twice"), how = c.choose(4, "delivery"), n = 1 + c.choose(2, "delivered once or twice");
    if (s == SIGKILL || s == SIGSTOP || s == 32 || s == 33 || fatal(s)) throw mc::Abandon();
    for (int i = 0; i < times; ++i) { auto st = SignalHandler::install(s, handler(i)); MC_CHECK(c, st.ok(), "install", "installing for " + name(s) + ": " + st.toString()); }
    for (int i = 0; i < n; ++i) { c.step(); pid_t f = deliver(how, s); judge(c, s, times - 1, f, name(s) + " by " + kHow[how]); }
    // held back while it is blocked, and run once when it is let through
    if (how < 2 && times == 1) {
        sigset_t one, old; sigemptyset(&one); sigaddset(&one, s); sigprocmask(SIG_BLOCK, &one, &old); deliver(how, s);
        MC_CHECK(c, g_n == 0, "ran-blocked", name(s) + " ran its handler while blocked"); sigprocmask(SIG_SETMASK, &old, nullptr); judge(c, s, 0, getpid(), name(s) + " let through");
    }
}
// ---- an operation of the system fails
static void failing(Ctx& c) {
    static const vector<int> S{SIGUSR1, SIGTERM, SIGPIPE};
    int pre = c.choose(3), at = 1 + c.choose(6), again = c.choose(2);
    g_active = true; g_calls = 0; int model[65]; for (auto& m : model) m = -1;
    for (int i = 0; i < pre; ++i) { MC_CHECK(c, SignalHandler::install(S[i], handler(9)).ok(), "install", "refused"); model[S[i]] = 9; }
    int first = pre ? 0 : 2;   // the first installation ignores two signals before its own
    g_calls = 0; g_failAt = at; c.step();
    auto st = SignalHandler::install({SIGUSR1, SIGTERM, SIGPIPE}, handler(1)); g_failAt = 0;
    bool fails = at <= first + 3;
    MC_CHECK(c, st.ok() == !fails, "status", "system call " + std::to_string(at) + " failed and the installation reported " + st.toString());
    if (g_calls < at && fails) throw mc::Abandon();
    // what was installed before the failing one runs the new handler, the others what they had
    for (int i = 0; i < 3; ++i) if (!fails || at > first + i + 1) model[S[i]] = 1;
    c.outcome(st.toString());
    if (again) { auto t = SignalHandler::install({SIGTERM}, handler(2)); MC_CHECK(c, t.ok(), "again", "a later installation reported " + t.toString()); model[SIGTERM] = 2; MC_CHECK(c, model[SIGPIPE] >= 0 || isIgnored(SIGPIPE), "not-ignored", "broken pipe is not ignored after a later installation"); }
    g_active = false;
    for (int s : S) { if (model[s] < 0 && isDefault(s)) continue; pid_t f = deliver(0, s); judge(c, s, model[s], f, name(s) + " after a failed installation"); }
}
// ---- fatal signals, in a process of their own
struct Shared { volatile int n; Run r[8]; };
static Shared* g_sh = nullptr;
static void fatals(Ctx& c) {
    static const vector<int> S{SIGSEGV, SIGABRT, SIGILL, SIGFPE, SIGBUS};
    int s = c.pick(S), how = c.choose(3), times = 1 + c.choose(2), other = c.choose(2);
    if (!g_sh) g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh->n = 0; c.step();
    pid_t p = fork();
    if (p == 0) {
        rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z); prctl(PR_SET_DUMPABLE, 0); alarm(20);
        for (int i = 0; i < times; ++i) SignalHandler::install({s}, [i](SignalHandler::GeneralSignalInfo* f) { int n = g_sh->n; if (n < 8) { g_sh->r[n].handler = i; g_sh->r[n].sig = f->sig(); g_sh->r[n].pid = f->pid(); snprintf(g_sh->r[n].text, sizeof g_sh->r[n].text, "%s", f->toString()); } g_sh->n = n + 1; });
        if (other) SignalHandler::install({SIGUSR1, SIGTERM}, handler(5));
        if (how == 0) raise(s); else if (how == 1) kill(getpid(), s);
        else switch (s) {
            case SIGSEGV: { volatile char* q = (char*)mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); asm volatile("movb $1, (%0)" ::"r"(q)); break; }
            case SIGABRT: abort();
            case SIGILL: asm volatile("ud2"); break;
            case SIGFPE: asm volatile("xorl %%ecx, %%ecx; movl $1, %%eax; cltd; idivl %%ecx" ::: "eax", "ecx", "edx"); break;
            case SIGBUS: { FILE* f = tmpfile(); volatile char* q = (char*)mmap(nullptr, 4096, PROT_READ, MAP_SHARED, fileno(f), 0); char v; asm volatile("movb (%1), %0" : "=r"(v) : "r"(q)); break; }
        }
        _exit(77);
    }
    int st = 0; waitpid(p, &st, 0);
    string what = name(s) + (how == 2 ? " by a fault" : how ? " by kill" : " by raise");
    MC_CHECK(c, WIFSIGNALED(st) && WTERMSIG(st) == s, "survived", what + ": the process " + (WIFEXITED(st) ? "exited with " + std::to_string(WEXITSTATUS(st)) : "was ended by " + name(WTERMSIG(st))));
    MC_CHECK(c, g_sh->n == 1, g_sh->n > 1 ? "fatal-twice" : "fatal-not-run", what + ": its handler ran " + std::to_string(g_sh->n) + " times before the process ended");
    MC_CHECK(c, g_sh->r[0].handler == times - 1 && g_sh->r[0].sig == s, "fatal-wrong", what + ": handler " + std::to_string(g_sh->r[0].handler) + " ran with number " + std::to_string(g_sh->r[0].sig));
    if (how < 2) MC_CHECK(c, g_sh->r[0].pid == p, "fatal-sender", what + ": sender " + std::to_string(g_sh->r[0].pid));
    c.outcome(what);
}
// ---- a signal at every instruction of an installation
static volatile long g_step = 0, g_at = -1; static volatile int g_sig = 0; static volatile pid_t g_me = 0;
static void onTrap(int, siginfo_t*, void* u) {
    auto* uc = (ucontext_t*)u;
    if (g_step < 0) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
    if (++g_step == g_at) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L; syscall(SYS_tgkill, g_me, syscall(SYS_gettid), g_sig); }   // no need to go on stepping
}
static void trapOn() { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = onTrap; a.sa_flags = SA_SIGINFO; ::sigaction(SIGTRAP, &a, nullptr); g_me = getpid(); g_step = 0; raise(SIGTRAP); }
static void trapOff() { long n = g_step; g_step = -1; raise(SIGTRAP); g_step = n; }
// the signals used are ignored unless they are handled; a fresh one for every first installation of a process
static const vector<int> kSigs = [] { vector<int> v{SIGWINCH, SIGURG}; for (int s = 35; s <= 64; ++s) v.push_back(s); return v; }();
static void during(int before, bool list, int sig) {
    if (before) SignalHandler::install(before == 2 ? SIGUSR1 : sig, bigHandler(1));
    g_n = 0; auto h = handler(2); auto l = {SIGUSR2, sig};
    trapOn();
    if (list) SignalHandler::install(l, h); else SignalHandler::install(sig, h);
    trapOff();
}
// the number of instructions, counted once in a process of its own
static long count(int before, bool list) {
    static long* n = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork(); if (p == 0) { alarm(30); g_at = -1; during(before, list, SIGWINCH); *n = g_step; _exit(0); }
    int st; waitpid(p, &st, 0); return *n;
}
static long g_points[3][2];
// every block of instructions in a process of its own; neighbouring blocks overlap, so that an instruction
// more or less from one process to the next does not matter
static void points(Ctx& c) {
    int before = 2 - c.choose(c.thorough() ? 3 : 2, "before: another signal, the same one, nothing"); bool list = c.thorough() && c.choose(2, "in a list");
    long n = g_points[before][list]; int core = before ? 26 : 1, margin = before ? 2 : 0;
    MC_CHECK(c, n > 100, "not-stepped", "the installation could not be stepped through");
    int block = c.choose((int)(n / core) + 2, "block of instructions"), used = 0;
    for (auto s : kSigs) signal(s, SIG_IGN);
    for (long at = block * core - margin; at < block * core + core + margin; ++at) {
        if (at < 1) continue;
        int sig = before == 2 ? kSigs[used++] : SIGWINCH;
        c.step(); g_at = at; g_sig = sig;
        during(before, list, sig);
        int ran = g_n, first = ran ? g_runs[0].handler : -1; string r = runs();
        string what = "a signal at instruction " + std::to_string(at) + " of " + std::to_string(n) + " of an installation";
        MC_CHECK(c, ran <= 1, "run-twice", what + ": ran" + r);
        if (at <= g_step && before == 1) MC_CHECK(c, ran == 1, "lost", what + ": no handler ran, although one is being replaced");
        if (ran) {
            MC_CHECK(c, first == 2 || (before == 1 && first == 1), "wrong-handler", what + ": ran" + r);
            MC_CHECK(c, g_runs[0].sig == sig && g_runs[0].pid == getpid(), "details", what + ": the handler was told number " + std::to_string(g_runs[0].sig) + " from " + std::to_string(g_runs[0].pid));
        }
        c.outcome(string(ran ? first == 1 ? "old handler" : "new handler" : "ignored") + (before == 1 ? " of two" : ""));
        pid_t f = deliver(0, sig); judge(c, sig, 2, f, "after " + what);
    }
}
int main(int argc, char** argv) {
    disposition(SIGUSR1);   // the look-up of the system's sigaction is not part of an installation
    for (int b = 0; b < 3; ++b) for (int l = 0; l < 2; ++l) g_points[b][l] = count(b, l);
    return mc::run(argc, argv, "C44", {
        {"histories", histories, true, "all sequences of 3 (4) installations for one or two of 5 (4 operations: 3) signals, by number or in a list, and deliveries by raise, kill, sigqueue or another process; the disposition of all 64 signals after each"},
        {"each", each, true, "every signal that can be handled and is not fatal, installed once or twice, delivered in 4 ways once or twice, and held back while blocked"},
        {"failing", failing, true, "the n-th system call of an installation failing, after 0-2 installations, and another installation afterwards"},
        {"fatal", fatals, true, "each of the 5 fatal signals by raise, by kill and by a real fault, in a process of its own"},
        {"points", points, true, "a signal at every machine instruction of an installation, first or replacing (thorough: the very first one of the process, and in a list)"},
    }, {"signals arrive at the installing thread: a delivery to another thread while a handler is being replaced is not explored",
        "handlers do not install handlers for their own signal"});
}
