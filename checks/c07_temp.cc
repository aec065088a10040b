// C07: temporary files and directories on a real file system in a scratch directory, with chosen failures of system calls.
#include "mc.h"
#include "heap.h"
#include "common/fs/TempFile.h"
#ifdef WITH_DIR
#include "common/fs/TempDir.h"
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <memory>
#include <map>
#include <set>
using mc::Ctx;
using nebula::fs::TempFile;

// ---- the system calls: real ones, refused when the scenario says so, confined to the scratch directory
static std::string g_root;      // scratch directory of this process
static bool g_active = false;
struct Faults { int create = 0, close = 0, remove = 0; };      // errno to fail with, 0 = none
static Faults g_f;
static bool g_squatter = false; // somebody else creates the chosen name just before the implementation does, unless it insists on being the creator
static int g_opened = 0, g_failedCreate = 0;
#define REALFN(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
static std::string absolute(const char* p) { if (!p) return ""; if (*p == '/') return p; char cwd[4096]; return std::string(getcwd(cwd, sizeof cwd) ? cwd : "") + "/" + p; }
static bool inside(const char* p) { std::string a = absolute(p); return a.compare(0, g_root.size() + 1, g_root + "/") == 0 && a.find("/../") == std::string::npos; }
static void confine(const char* p, const char* what) { if (g_active && !inside(p)) { g_active = false; mc::ctx().fail("escape", std::string(what) + " of " + (p ? p : "null") + ", which is no path of this object"); } }
static bool fault(int e) { if (g_active && e) { errno = e; return true; } return false; }
extern "C" {
int mkstemp(char* t) { REALFN(mkstemp); if (fault(g_f.create)) { ++g_failedCreate; return -1; } int r = real(t); if (g_active && r >= 0) ++g_opened; return r; }
int mkstemp64(char* t) { return mkstemp(t); }
int mkostemp(char* t, int fl) { REALFN(mkostemp); if (fault(g_f.create)) { ++g_failedCreate; return -1; } int r = real(t, fl); if (g_active && r >= 0) ++g_opened; return r; }
int mkostemp64(char* t, int fl) { return mkostemp(t, fl); }
int mkstemps(char* t, int n) { REALFN(mkstemps); if (fault(g_f.create)) { ++g_failedCreate; return -1; } int r = real(t, n); if (g_active && r >= 0) ++g_opened; return r; }
char* mkdtemp(char* t) { REALFN(mkdtemp); if (fault(g_f.create)) { ++g_failedCreate; return nullptr; } return real(t); }
int mkdir(const char* p, mode_t m) { REALFN(mkdir); confine(p, "creation"); if (fault(g_f.create)) { ++g_failedCreate; return -1; } return real(p, m); }
static int openImpl(int (*real)(const char*, int, ...), const char* p, int fl, mode_t m) {
    if (g_active && (fl & O_CREAT)) {
        confine(p, "creation");
        if (fault(g_f.create)) { ++g_failedCreate; return -1; }
        if (g_squatter && !(fl & O_EXCL)) { int q = real(p, O_CREAT | O_WRONLY, 0644); if (q >= 0) { static auto cl = (int (*)(int))dlsym(RTLD_NEXT, "close"); cl(q); } }
    }
    int r = real(p, fl, m);
    if (g_active && r >= 0) ++g_opened;
    return r;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); return openImpl(real, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"); return openImpl(real, p, fl, m); }
int close(int fd) { static auto real = (int (*)(int))dlsym(RTLD_NEXT, "close"); int r = real(fd); if (g_active && r == 0 && g_f.close) { errno = g_f.close; return -1; } return r; }
int unlink(const char* p) { static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink"); confine(p, "removal"); if (fault(g_f.remove)) return -1; return real(p); }
int remove(const char* p) { static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "remove"); confine(p, "removal"); if (fault(g_f.remove)) return -1; return real(p); }
int rmdir(const char* p) { static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "rmdir"); confine(p, "removal"); if (fault(g_f.remove)) return -1; return real(p); }
int unlinkat(int d, const char* p, int fl) { static auto real = (int (*)(int, const char*, int))dlsym(RTLD_NEXT, "unlinkat"); if (d == AT_FDCWD) confine(p, "removal"); if (fault(g_f.remove)) return -1; return real(d, p, fl); }
int rename(const char* a, const char* b) { static auto real = (int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename"); confine(a, "renaming"); confine(b, "renaming"); return real(a, b); }
}

static void listInto(const std::string& dir, const std::string& pre, std::map<std::string, std::string>& out) {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st; std::string full = dir + "/" + n;
        if (lstat(full.c_str(), &st)) continue;
        char desc[64]; snprintf(desc, sizeof desc, "%o/%lu/%ld", st.st_mode, (unsigned long)st.st_ino, S_ISDIR(st.st_mode) ? 0L : (long)st.st_size);
        out[pre + n] = desc;
        if (S_ISDIR(st.st_mode)) listInto(full, pre + n + "/", out);
    }
    closedir(d);
}
static std::map<std::string, std::string> listing() { std::map<std::string, std::string> m; listInto(g_root, "", m); return m; }
static std::set<int> fds() {
    std::set<int> s; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) { int n = atoi(e->d_name); if (e->d_name[0] != '.' && n != dirfd(d)) s.insert(n); }
    closedir(d); return s;
}
static void wipe(const std::string& dir) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    std::vector<std::string> v; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d);
    for (auto& n : v) { std::string f = dir + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0700); wipe(f); ::rmdir(f.c_str()); } else ::unlink(f.c_str()); }
}
static void put(const std::string& rel, const char* text = "keep") { FILE* f = fopen((g_root + "/" + rel).c_str(), "w"); if (f) { fputs(text, f); fclose(f); } }
static std::string g_parent;
static void setup() {
    g_active = false;
    std::string mine = g_parent + "/" + std::to_string(getpid());
    if (g_root != mine) { g_root = mine; ::mkdir(g_root.c_str(), 0755); }
    wipe(g_root);
    ::mkdir((g_root + "/sub.dir").c_str(), 0755);
    put("keep"); put("f.XXXXXX"); put("f."); put("sub.dir/keep"); put("rel.XXXXXX"); put("fiveXXXXX");
    if (chdir(g_root.c_str())) abort();
    g_f = Faults(); g_squatter = false; g_opened = 0;
}
struct Tmpl { const char* t; bool valid; };
static const std::vector<Tmpl> files = {{"$/f.XXXXXX", true}, {"$/XXXXXX", true}, {"rel.XXXXXX", true}, {"$/sub.dir/aXXXXXX", true}, {"$/XXXXXXXXXXXX", true}, {"$/p q.XXXXXX", true},
    {"$/missing/aXXXXXX", false}, {"$/noX", false}, {"$/fiveXXXXX", false}, {"$/XXXXXX.txt", false}, {"$/keep/XXXXXX", false}, {"", false}};
static std::string expand(const char* t) { std::string s = t; if (!s.empty() && s[0] == '$') s = g_root + s.substr(1); return s; }
static bool matches(const std::string& p, const std::string& t) {
    if (p.size() != t.size() || p.compare(0, p.size() - 6, t, 0, t.size() - 6) != 0) return false;
    for (size_t i = p.size() - 6; i < p.size(); ++i) if (!isalnum((unsigned char)p[i])) return false;
    return true;
}
static std::string rel(const std::string& p) {
    std::string a = absolute(p.c_str()); size_t k;
    while ((k = a.find("/sub.dir/../")) != std::string::npos) a.erase(k, 11);
    return a.substr(g_root.size() + 1);
}
static const std::vector<int> createErr = {0, ENOSPC, EACCES, EMFILE, EEXIST, EINTR};

static void fileHistory(Ctx& c, bool withFaults) {
    setup();
    long live0 = mc::heap_live();
    {
    struct Obj { std::unique_ptr<TempFile> f; std::string path; bool del; bool there; };
    std::vector<Obj> o;
    umask(c.thorough() || !withFaults ? std::vector<mode_t>{022, 0, 077}[c.choose(3)] : 022);
    bool noStdin = withFaults && c.flip();
    static int saved = -1;
    static auto realClose = (int (*)(int))dlsym(RTLD_NEXT, "close");
    if (noStdin) { saved = dup(0); if (saved >= 0) realClose(0); }
    auto before = listing(); auto fd0 = fds();
    int depth = (c.thorough() ? 4 : 3) - withFaults;
    for (int i = 0; i < depth; ++i) {
        int nt = withFaults ? (c.thorough() ? 3 : 2) : (int)files.size();
        int k = c.choose(nt * 2 + 4);
        g_f = Faults();
        if (k < nt * 2) {
            const Tmpl& t = files[k / 2]; bool del = k % 2 == 0;
            if (withFaults) { g_f.create = c.pick(createErr); if (!g_f.create) g_f.close = std::vector<int>{0, EINTR, EIO}[c.choose(3)]; g_squatter = !g_f.create && c.flip(); }
            std::string tmpl = expand(t.t);
            MC_LOG(c, "create " << tmpl << (del ? "" : " kept") << " create errno " << g_f.create << " close errno " << g_f.close);
            auto buf = std::make_unique<char[]>(tmpl.size() + 1); strcpy(buf.get(), tmpl.c_str());
            auto b4 = listing(); g_failedCreate = 0;
            Obj n; n.del = del; bool threw = false; std::string other;
            g_active = true;
            try { if (del && i % 2) n.f.reset(new TempFile(buf.get())); else n.f.reset(new TempFile(buf.get(), del)); }
            catch (const std::runtime_error&) { threw = true; }
            g_active = false;
            MC_CHECK(c, strcmp(buf.get(), tmpl.c_str()) == 0, "template-changed", "the caller's template was modified to " << buf.get());
            memset(buf.get(), '#', tmpl.size()); buf.reset();
            auto now = listing();
            MC_CHECK(c, fds() == fd0, "descriptor", "a descriptor is left open (or a foreign one closed) after creating " << tmpl << (threw ? ", which failed" : ""));
            if (threw) {
                MC_CHECK(c, !t.valid || g_failedCreate, "refused", "creation from " << tmpl << " failed although every call succeeded");
                MC_CHECK(c, now == b4, "left-behind", "a failed creation left something behind or removed something");
            } else {
                const char* pp = n.f->path();
                MC_CHECK(c, pp != nullptr, "path", "path() is null after a successful creation");
                n.path = pp;
                MC_CHECK(c, t.valid, "accepted", "a file was reported for the invalid template " << tmpl << ": " << n.path);
                MC_CHECK(c, matches(n.path, tmpl), "path", "path " << n.path << " does not match " << tmpl);
                std::string r = rel(n.path);
                MC_CHECK(c, !b4.count(r), "exclusive", n.path << " existed before");
                MC_CHECK(c, now.count(r), "exists", n.path << " does not exist after creation");
                struct stat st; MC_CHECK(c, lstat(n.path.c_str(), &st) == 0 && S_ISREG(st.st_mode), "exists", n.path << " is no regular file");
                MC_CHECK(c, (st.st_mode & 07777) == 0600, "mode", n.path << " has mode " << std::oct << (st.st_mode & 07777));
                MC_CHECK(c, st.st_size == 0, "exclusive", n.path << " is not empty");
                auto x = now; x.erase(r);
                MC_CHECK(c, x == b4, "side-effect", "creating " << n.path << " changed other files");
                n.there = true; o.push_back(std::move(n));
            }
            c.outcome(threw ? "refused" : "created");
        } else if (k == nt * 2) {            // destroy the oldest
            if (o.empty()) continue;
            if (withFaults) g_f.remove = std::vector<int>{0, EACCES, ENOENT}[c.choose(3)];
            MC_LOG(c, "destroy " << o[0].path << " remove errno " << g_f.remove);
            auto b4 = listing();
            g_active = true; o[0].f.reset(); g_active = false;
            auto now = listing();
            std::string r = rel(o[0].path);
            if (o[0].del && !g_f.remove) { MC_CHECK(c, !now.count(r), "not-removed", o[0].path << " still exists after destruction"); b4.erase(r); MC_CHECK(c, now == b4, "removed-other", "destruction changed other files than " << r); }
            else MC_CHECK(c, now == b4, "removed", "destruction without automatic deletion changed " << r << " or other files");
            MC_CHECK(c, fds() == fd0, "descriptor", "a descriptor is left open after destruction");
            c.outcome(o[0].del ? "removed" : "kept");
            o.erase(o.begin());
        } else if (k == nt * 2 + 1) {        // someone else deletes the youngest file
            if (o.empty() || !o.back().there) continue;
            MC_LOG(c, "deleted by others"); ::unlink(o.back().path.c_str()); o.back().there = false;
        } else if (k == nt * 2 + 2) {        // it is written to and made read-only
            if (o.empty() || !o.back().there) continue;
            MC_LOG(c, "written"); FILE* f = fopen(o.back().path.c_str(), "w"); if (f) { fputs("data", f); fclose(f); } chmod(o.back().path.c_str(), 0400);
        } else {                             // destroy the youngest
            if (o.empty()) continue;
            MC_LOG(c, "destroy " << o.back().path);
            auto b4 = listing();
            g_active = true; o.back().f.reset(); g_active = false;
            auto now = listing(); std::string r = rel(o.back().path);
            if (o.back().del) b4.erase(r);
            MC_CHECK(c, now == b4, "removed-other", "destruction changed other files than " << r << " or left it");
            o.pop_back();
        }
        c.step();
        for (auto& x : o) MC_CHECK(c, x.path == x.f->path(), "path", "path() changed from " << x.path << " to " << x.f->path());
        c.state(std::to_string(o.size()) + std::to_string(k));
    }
    std::set<std::string> gone; for (auto& x : o) if (x.del) gone.insert(rel(x.path));
    auto b4 = listing(); for (auto& g : gone) b4.erase(g);
    g_f = Faults(); g_active = true; for (auto& x : o) x.f.reset(); g_active = false;
    MC_CHECK(c, listing() == b4, "removed-other", "after destroying everything other files differ");
    MC_CHECK(c, fds() == fd0, "descriptor", "descriptors differ at the end");
    for (auto& e : before) MC_CHECK(c, listing().count(e.first), "removed-other", e.first << " disappeared");
    if (noStdin && saved >= 0) { dup2(saved, 0); realClose(saved); }
    umask(022);
    }
    (void)live0;
}
// no allocation is left behind by creation, failed creation and destruction
static void leaks(Ctx& c) {
    setup();
    int t = c.choose(files.size()); int err = c.pick(createErr); bool del = c.flip();
    std::string s = expand(files[t].t);
    auto once = [&] { g_f.create = err; g_active = true; try { TempFile f(s.c_str(), del); } catch (const std::exception&) {} g_active = false; };
    once();
    long b = mc::heap_live(); once(); long e = mc::heap_live();
    MC_CHECK(c, b == e, "leak", "creating and destroying a temporary file leaves " << e - b << " blocks");
    c.step(2); c.state(std::to_string(t * 10 + err)); c.outcome(std::to_string(err));
}

#ifdef WITH_DIR
#include "c07_dirs.inc"
#endif

int main(int argc, char** argv) {
    mc::heap_init();
    char tmp[] = "/tmp/mc_c07.XXXXXX";
    { static auto real = (char* (*)(char*))dlsym(RTLD_NEXT, "mkdtemp"); if (!real(tmp)) { perror("mkdtemp"); return 2; } }
    g_parent = tmp;
    std::vector<mc::Scenario> sc;
    sc.push_back({"file-histories", [](Ctx& c) { fileHistory(c, false); }, false, "all histories of 3 (4) operations: 12 templates (6 invalid) x automatic deletion, destruction oldest/youngest first, deletion and change by others, 3 umasks"});
    sc.push_back({"file-failures", [](Ctx& c) { fileHistory(c, true); }, false, "all histories of 2 (3) operations over 2 (3) templates with 6 outcomes of creation, 3 of closing, 3 of removal, a competing creator, standard input closed"});
    sc.push_back({"file-leaks", leaks, false, "12 templates x 6 outcomes of creation"});
#ifdef WITH_DIR
    addDirs(sc);
#endif
    int rc = mc::run(argc, argv, "C07", sc, {"the file system follows POSIX"});
    if (chdir("/")) return 2;
    g_active = false; wipe(g_parent); ::rmdir(g_parent.c_str());
    return rc;
}
