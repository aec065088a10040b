// C52: processes: the pid file, whether a process runs, and what the system tells about one, with every answer of the system chosen.
#include "mc.h"
#include "common/process/ProcessUtils.h"
#include "fsbox.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using mc::Ctx; using nebula::ProcessUtils; using std::string; using std::vector;

static bool g_on = false; static vector<std::pair<pid_t, int>> g_kills; static int g_killErr = 0; static bool g_running = true;
extern "C" int kill(pid_t p, int s) noexcept {
    if (g_on) { g_kills.push_back({p, s}); if (g_killErr) { errno = g_killErr; return -1; } if (g_running) return 0; errno = ESRCH; return -1; }
    static auto real = (int (*)(pid_t, int))dlsym(RTLD_NEXT, "kill"); return real(p, s);
}
static int g_accessErr = 0;
extern "C" int access(const char* p, int m) noexcept { if (g_on && g_accessErr) { errno = g_accessErr; return -1; } static auto real = (int (*)(const char*, int))dlsym(RTLD_NEXT, "access"); return real(p, m); }
static const pid_t ME = 4242; static string g_dir;
extern "C" pid_t getpid() noexcept { static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "getpid"); return g_on ? ME : real(); }

struct On { On() { g_kills.clear(); g_killErr = 0; g_accessErr = 0; g_running = true; g_on = true; } ~On() { g_on = false; } };
static string show(const string& s) { string r; for (unsigned char ch : s) if (ch >= 32 && ch < 127) r += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } return r; }
// The pid a file names: the first run of digits of it, if any.
static bool named(const string& t, unsigned long long& v) {
    size_t i = 0; while (i < t.size() && !(t[i] >= '0' && t[i] <= '9')) ++i; if (i == t.size()) return false;
    v = 0; for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) { v = v * 10 + (t[i] - '0'); if (v > 1ull << 40) v = 1ull << 40; } return true;
}
static string content(Ctx& c) {
    static const vector<string> B = {"7", "0", "\n", " ", "x", "-", "4242", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999999", string(1, '\0')};
    int n = c.choose(c.thorough() ? 5 : 4, "bits"); string s; for (int i = 0; i < n; ++i) s += c.pick(B); return s;
}
// Whether a pid, given directly or in a file, is free.
static void verdict(Ctx& c, const nebula::Status& s, bool known, unsigned long long pid) {
    MC_CHECK(c, (g_kills.size() <= 1), "signals", "more than one process is asked about");
    for (auto& k : g_kills) MC_CHECK(c, (k.second == 0), "signalled", "a signal " + std::to_string(k.second) + " is sent");
    if (!known || pid > 2147483647ull) { MC_CHECK(c, (s.ok()), "no-pid", "a file without a possible pid is taken for that of a running process: " + s.toString()); MC_CHECK(c, (g_kills.empty()), "asked", "the file names no possible pid, but process " + std::to_string(g_kills[0].first) + " is asked about"); c.outcome("none"); return; }
    if ((pid_t)pid == ME) { MC_CHECK(c, (s.ok()), "own", "the process's own pid is not available: " + s.toString()); c.outcome("own"); return; }
    MC_CHECK(c, (g_kills.size() == 1 && g_kills[0].first == (pid_t)pid), "which", "process " + (g_kills.empty() ? string("none") : std::to_string(g_kills[0].first)) + " is asked about instead of " + std::to_string(pid));
    bool free = g_killErr ? g_killErr == ESRCH : !g_running;
    MC_CHECK(c, (s.ok() == free), "verdict", "process " + std::to_string(pid) + (free ? " does not run but is reported to" : " runs (or cannot be asked about) but is reported free")); c.outcome(free ? "free" : "taken");
}
static void status(Ctx& c) { On on; static const vector<pid_t> P = {0, 1, 7, ME, 2147483647, 4194304}; pid_t p = c.pick(P); int e = c.choose(5, "answer"); g_running = e == 0; g_killErr = e == 2 ? EPERM : e == 3 ? ESRCH : e == 4 ? EINVAL : 0; auto s = ProcessUtils::isPidAvailable(p); c.step(); verdict(c, s, true, (unsigned long long)p); }
static void file(Ctx& c) {
    box::enter(); box::wipe(box::root); string t = content(c); int kind = c.choose(5, "file");   // plain, through a link, missing, unreadable, other failure
    string p = box::root + "/pid"; if (kind == 0 || kind >= 3) box::put("pid", t); else if (kind == 1) { box::put("real", t); if (symlink((box::root + "/real").c_str(), p.c_str())) abort(); } else if (!t.empty()) throw mc::Abandon();
    On on; g_accessErr = kind == 3 ? EACCES : kind == 4 ? ENOTDIR : 0; int e = c.choose(3, "answer"); g_running = e == 0; g_killErr = e == 2 ? EPERM : 0;
    auto s = ProcessUtils::isPidAvailable(p); c.step();
    if (kind >= 3) { MC_CHECK(c, (!s.ok()), "unreadable", "a pid file that cannot be read is taken for that of no process"); MC_CHECK(c, (g_kills.empty()), "asked", "a process is asked about although the file cannot be read"); c.outcome("unreadable"); return; }
    unsigned long long v = 0; bool k = kind != 2 && named(t, v); verdict(c, s, k, v);
}
static void make(Ctx& c) {
    box::enter(); box::wipe(box::root); static const vector<string> P = {"p", "d/p", "d/e/p", "d//p"}; string rel = c.pick(P), p = box::root + "/" + rel; static const vector<pid_t> N = {0, 1, ME, 2147483647};
    int rounds = c.thorough() ? 3 : 2; pid_t last = -1;
    for (int r = 0; r < rounds; ++r) {
        int before = c.choose(5, "before"); bool full = false;
        if (before == 1) { if (r) throw mc::Abandon(); if (rel != "p") throw mc::Abandon(); box::put("p", "123456789 and more\n"); } else if (before == 2) { if (r) throw mc::Abandon(); if (rel == "p") throw mc::Abandon(); box::put("d", "a file"); } else if (before == 3) { if (r || rel != "p") throw mc::Abandon(); if (mkdir(p.c_str(), 0755)) abort(); } else if (before == 4) full = true;
        pid_t n = c.pick(N); rlimit old; getrlimit(RLIMIT_FSIZE, &old); nebula::Status s;
        { On on; if (full) { signal(SIGXFSZ, SIG_IGN); rlimit z{0, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &z); } s = ProcessUtils::makePidFile(p, n); if (full) { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, SIG_DFL); } } c.step();
        if (before == 2 || before == 3) { MC_CHECK(c, (!s.ok()), "made", "a pid file that cannot exist is reported as made"); c.outcome("refused"); return; }
        if (full) { MC_CHECK(c, (!s.ok()), "unwritten", "a pid file that could not be written is reported as made"); last = -1; c.outcome("full"); continue; }
        MC_CHECK(c, (s.ok()), "refused", "the pid file is not made: " + s.toString()); last = n ? n : ME;
        std::ifstream f(p); string t((std::istreambuf_iterator<char>(f)), {}); MC_CHECK(c, (t == std::to_string(last) + "\n"), "content", "the pid file holds '" + show(t) + "' instead of " + std::to_string(last));
        On on; bool run = c.flip(); g_running = run; auto a = ProcessUtils::isPidAvailable(p); verdict(c, a, true, (unsigned long long)last);
    }
    if (c.flip()) { nebula::Status s = ProcessUtils::makePidFile("", 1); MC_CHECK(c, (!s.ok()), "empty", "a pid file without a name is made"); }
}
// What the system tells about a process: asked by the right name, handed on whole.
static vector<string> g_links; static string g_link; static int g_linkErr = 0;
extern "C" ssize_t readlink(const char* p, char* b, size_t n) noexcept {
    static auto real = (ssize_t (*)(const char*, char*, size_t))dlsym(RTLD_NEXT, "readlink"); if (!g_on) return real(p, b, n);
    g_links.push_back(p); if (g_linkErr) { errno = g_linkErr; return -1; } size_t k = std::min(n, g_link.size()); memcpy(b, g_link.data(), k); return (ssize_t)k;
}
static void about(Ctx& c) {
    static const vector<pid_t> P = {0, 1, 77, 2147483647}; static const vector<int> L = {1, 20, 255, 1023, 1024, 4000}; static const vector<int> E = {0, ENOENT, EACCES};
    pid_t p = c.pick(P); bool cwd = c.flip(); int n = c.pick(L); g_link = "/" + string((size_t)n - 1, 'x'); g_linkErr = c.pick(E); g_links.clear();
    On on; auto r = cwd ? ProcessUtils::getExeCWD(p) : ProcessUtils::getExePath(p); c.step(); string want = "/proc/" + std::to_string(p ? p : ME) + (cwd ? "/cwd" : "/exe");
    MC_CHECK(c, (!g_links.empty()), "asked", "the system is not asked"); for (auto& l : g_links) MC_CHECK(c, (l == want), "which", l + " is read instead of " + want);
    if (g_linkErr) { MC_CHECK(c, (!r.ok()), "failed", "a process that cannot be asked about has a path"); c.outcome("failed"); return; }
    MC_CHECK(c, (r.ok() && r.value() == g_link), "path", r.ok() ? "of a path of " + std::to_string(n) + " characters " + std::to_string(r.value().size()) + " come back" : "a readable path gives an error"); c.outcome("path");
}
int main(int argc, char** argv) {
    if (!box::create("c52")) return 2;
    int rc = mc::run(argc, argv, "C52", {
        {"status", status, false, "6 process ids with 5 answers of the system"},
        {"file", file, false, "files of up to 3 (4) of 13 texts, plain, through a link, missing or unreadable, with 3 answers of the system"},
        {"make", make, false, "4 paths, 2 (3) files made one after another with 4 process ids over nothing, an old file, a file for a directory, a directory, or on a full disk, each read back"},
        {"about", about, false, "4 process ids, both paths, 6 lengths, 3 answers"},
    }, {"whether a process runs, and the links of /proc, are answered by the check"});
    box::destroy();
    return rc;
}
