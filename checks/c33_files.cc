// C33: file utilities on every small directory tree of a real file system in a scratch directory, with chosen failures and disturbances.
#include "fsbox.h"
#include "heap.h"
#include "common/fs/FileUtils.h"
#include <dirent.h>
#include <sys/statfs.h>
#include <memory>
using mc::Ctx;
using nebula::fs::FileUtils;
using nebula::fs::FileType;
using std::string;
using std::vector;

// ---- free space as chosen
static bool g_fakeStat = false; static int g_statErr = 0; static struct statfs g_stat;
extern "C" {
int statfs(const char* p, struct statfs* s) { static auto real = (int (*)(const char*, struct statfs*))dlsym(RTLD_NEXT, "statfs"); if (!g_fakeStat) return real(p, s); if (g_statErr) { errno = g_statErr; return -1; } *s = g_stat; return 0; }
int statfs64(const char* p, struct statfs64* s) { return statfs(p, (struct statfs*)s); }
}

// ---- trees: what each entry is, by our own definition
enum K { FILE_, DIR_, LDIR, LFILE, LNONE, FIFO_, SOCK_, LFIFO, KINDS };
static const char* kname[] = {"file", "dir", "link to dir", "link to file", "dangling link", "fifo", "socket", "link to fifo"};
struct Node { K k; string path; int parent; };
struct Tree {
    vector<Node> n;
    string text() const { string s; for (auto& x : n) { if (!s.empty()) s += ", "; s += x.path + " (" + kname[x.k] + ")"; } return s.empty() ? "an empty directory" : s; }
};
static void makeNode(K k, const string& rel) {
    string f = box::root + "/" + rel;
    switch (k) {
        case FILE_: box::put(rel, "text of " + rel); break;
        case DIR_: ::mkdir(f.c_str(), 0755); break;
        case LDIR: if (symlink((box::root + "/out").c_str(), f.c_str())) abort(); break;
        case LFILE: if (symlink((box::root + "/out/keep").c_str(), f.c_str())) abort(); break;
        case LNONE: if (symlink((box::root + "/nowhere").c_str(), f.c_str())) abort(); break;
        case FIFO_: if (mkfifo(f.c_str(), 0644)) abort(); break;
        case SOCK_: { int fd = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; string r = rel; snprintf(a.sun_path, sizeof a.sun_path, "%s", r.c_str()); if (bind(fd, (sockaddr*)&a, sizeof a)) abort(); close(fd); break; }
        case LFIFO: if (symlink((box::root + "/pipe").c_str(), f.c_str())) abort(); break;
        default: abort();
    }
}
static void enter() {
    box::enter();
    ::mkdir("out", 0755); box::put("out/keep", "kept"); ::mkdir("out/sub", 0755); box::put("out/sub/deep", "kept too");
    if (mkfifo("pipe", 0644)) abort();
    box::put("beside", "kept");
}
static const vector<string> kNames = {"a", "b", ".h", "ab"};
// all trees of exactly n entries below t with the given kinds
static Tree chooseTree(Ctx& c, int n, const vector<K>& kinds, bool names = false) {
    ::mkdir("t", 0755);
    Tree t; vector<int> dirs{-1};
    for (int i = 0; i < n; ++i) {
        int p = c.pick(dirs); K k = c.pick(kinds);
        string base = p < 0 ? "t" : t.n[p].path;
        string nm = names ? kNames[c.choose(kNames.size())] : string(1, 'a' + i);
        string path = base + "/" + nm;
        for (auto& x : t.n) if (x.path == path) throw mc::Abandon();
        makeNode(k, path); t.n.push_back({k, path, p});
        if (k == DIR_) dirs.push_back(i);
    }
    return t;
}
static bool there(const string& rel) { struct stat st; return lstat((box::root + "/" + rel).c_str(), &st) == 0; }
static bool under(const string& p, const string& dir) { return p == dir || p.compare(0, dir.size() + 1, dir + "/") == 0; }
static string describe(const std::map<string, string>& before, const std::map<string, string>& after) {
    string s;
    for (auto& e : before) if (!after.count(e.first)) s += " -" + e.first; else if (after.at(e.first) != e.second) s += " ~" + e.first;
    for (auto& e : after) if (!before.count(e.first)) s += " +" + e.first;
    return s.empty() ? " nothing" : s;
}
template <class F> static auto inImpl(F f) { struct Off { ~Off() { box::active = false; } } off; box::active = true; return f(); }

static const vector<K> kRemovable = {FILE_, DIR_, LDIR, LFILE, LNONE}, kAll = {FILE_, DIR_, LDIR, LFILE, LNONE, FIFO_, SOCK_}, kPlain = {FILE_, DIR_};

static void removal(Ctx& c, bool faults, bool disturbed) {
    enter();
    int n = c.choose((c.thorough() ? 4 : 3) - (faults && !c.thorough() ? 0 : 0) + 1);
    Tree t = chooseTree(c, n, faults || disturbed ? (c.thorough() ? kRemovable : kPlain) : n >= 4 ? kRemovable : n == 3 && !c.thorough() ? vector<K>{FILE_, DIR_, LDIR, LNONE, FIFO_} : kAll);
    int target = c.choose(std::min<int>(t.n.size(), 2) + 1) - 1;        // t itself or one of the first two entries
    string rel = target < 0 ? "t" : t.n[target].path;
    K k = target < 0 ? DIR_ : t.n[target].k;
    bool rec = c.flip();
    int form = c.choose(k == DIR_ && !faults && !disturbed ? 4 : k == DIR_ ? 1 : 2);
    string path = form == 0 ? box::root + "/" + rel : form == 1 ? rel : form == 2 ? rel + "/" : "./" + rel;
    bool simple = true; string how;
    box::order = 1 + (n > 1 ? c.choose(2) : 0); box::noTypes = c.flip();
    std::set<string> gone, added;
    if (faults) {
        static const vector<std::pair<int, vector<int>>> fs = {{box::kUnlink, {EACCES, EBUSY}}, {box::kRmdir, {EACCES, ENOTEMPTY}}, {box::kOpendir, {EACCES, EMFILE}}, {box::kReaddir, {EIO}}, {box::kClosedir, {EIO}}};
        auto& f = fs[c.choose(fs.size())]; box::faultKind = f.first; box::faultErr = f.second[c.choose(f.second.size())]; box::faultAt = 1 + c.choose(n + 2);
        how = " call " + std::to_string(box::faultAt) + " of kind " + std::to_string(box::faultKind) + " failing";
    }
    auto before = box::listing(); auto fd0 = box::fds();
    if (disturbed) {
        // just before the at'th of all calls somebody else removes an entry, or creates one
        int at = 1 + c.choose(3 * n + 4), what = c.choose(n + (n ? 1 : 0) + 1);
        how = " with " + (what < n ? t.n[what].path + " removed" : string("t/new created")) + " by others before call " + std::to_string(at);
        auto count = std::make_shared<int>(0); auto tree = std::make_shared<Tree>(t);
        box::event = [=, &gone, &added](box::Kind, int, const char*) {
            if (++*count != at) return;
            if (what < (int)tree->n.size()) {
                string p = tree->n[what].path;
                if (!there(p)) return;
                box::wipe(box::root + "/" + p); string f = box::root + "/" + p;
                struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) ::rmdir(f.c_str()); else ::unlink(f.c_str());
                for (auto& e : before) if (under(e.first, p)) gone.insert(e.first);
            } else if (there("t")) { box::put("t/new", "new"); added.insert("t/new"); }
        };
    }
    MC_LOG(c, "remove " << path << (rec ? " recursively" : "") << how << " in " << t.text());
    bool r = inImpl([&] { return FileUtils::remove(path.c_str(), rec); });
    int faulted = box::faulted;
    box::calm();
    auto after = box::listing();
    string what = "removing " + path.substr(form ? 0 : box::root.size() + 1) + (rec ? " recursively" : "") + how + " in " + t.text() + " returned " + (r ? "true" : "false") + " and changed" + describe(before, after);
    MC_CHECK(c, r == !after.count(rel) || (!r && gone.count(rel)), "report", what);
    for (auto& e : before) {
        bool in = under(e.first, rel);
        bool sub = false;      // an entry of a sub-directory
        for (auto& x : t.n) if (x.k == DIR_ && x.path != rel && under(x.path, rel) && under(e.first, x.path)) sub = true;
        if (!in) MC_CHECK(c, gone.count(e.first) || (after.count(e.first) && after[e.first] == e.second), "outside", what);
        else if (!rec && sub) MC_CHECK(c, gone.count(e.first) || after.count(e.first), "sub-directory", what);
        if (after.count(e.first)) MC_CHECK(c, after[e.first].substr(0, after[e.first].rfind('/')) == e.second.substr(0, e.second.rfind('/')), "replaced", what);
    }
    for (auto& e : after) MC_CHECK(c, before.count(e.first) || added.count(e.first), "created", what);
    // what must succeed: nothing there that cannot be removed, and no failing call
    bool special = false, subdir = false;
    for (auto& x : t.n) if (under(x.path, rel) && !gone.count(x.path)) { if (x.k == FIFO_ || x.k == SOCK_) special = true; if (x.k == DIR_ && x.path != rel && (target < 0 ? x.parent < 0 || true : true)) subdir = true; }
    if (k == FIFO_ || k == SOCK_) { MC_CHECK(c, !r || gone.count(rel), "special", what); }
    if (!faulted && !special && added.empty() && (rec || !subdir)) {
        bool could = true;
        if (disturbed && !rec) for (auto& x : t.n) if (x.k == DIR_ && x.path != rel && under(x.path, rel)) could = false;     // seen before it went
        if (could) MC_CHECK(c, r, "refused", what);
    }
    if (special && !disturbed) MC_CHECK(c, !r, "special", what);
    if (!rec && subdir && !disturbed) MC_CHECK(c, !r, "sub-directory", what);
    if (faults && faulted && box::kClosedir != -1 && !r) c.outcome("failed");
    MC_CHECK(c, box::fds() == fd0, "descriptor", "descriptors differ after " << what);
    // and once more: a path that is gone is removed
    if (r) MC_CHECK(c, inImpl([&] { return FileUtils::remove(path.c_str(), rec); }), "twice", "removing again after " << what);
    box::calm();
    MC_CHECK(c, box::listing() == after, "twice", "removing again changed something after " << what);
    c.outcome(std::to_string(r) + kname[k]); c.step(2); c.state(t.text() + path + how + std::to_string(rec));
}

// ---- directories are made
static void making(Ctx& c, bool faults) {
    enter();
    int n = c.choose((c.thorough() ? 3 : 2) + 1);
    // entries named a, b (and c) anywhere below t
    ::mkdir("t", 0755); Tree t; vector<int> dirs{-1};
    static const vector<K> kinds = {DIR_, FILE_, LDIR, LFILE, LNONE, FIFO_};
    for (int i = 0; i < n; ++i) {
        int p = c.pick(dirs); K k = c.pick(kinds); string path = (p < 0 ? string("t") : t.n[p].path) + "/" + string(1, 'a' + i % 2);
        for (auto& x : t.n) if (x.path == path) throw mc::Abandon();
        makeNode(k, path); t.n.push_back({k, path, p}); if (k == DIR_) dirs.push_back(i);
    }
    // the path: up to three names below t, written in one of several ways
    int len = c.choose(4); string path; vector<string> comp{"t"};
    bool rel = c.flip(); string sep = faults ? "/" : c.pick(vector<string>{"/", "//", "/./"});
    path = rel ? "t" : box::root + "/t";
    for (int i = 0; i < len; ++i) { string x = c.choose(2) ? "b" : "a"; path += sep + x; comp.push_back(x); }
    if (!faults) path += c.pick(vector<string>{"", "/", "//", "/."});
    static const vector<uint32_t> modes = {0775, 0700};
    uint32_t mode = c.pick(modes); mode_t um = c.flip() ? 022 : 0;
    string how; string rival;
    if (faults) {
        int w = c.choose(3);
        if (w < 2) { box::faultKind = box::kMkdir; box::faultAt = 1 + c.choose(3); box::faultErr = w ? ENOSPC : EACCES; how = " creation " + std::to_string(box::faultAt) + " failing"; }
        else {
            int at = 1 + c.choose(3); bool dir = c.flip(); how = " others creating the " + string(dir ? "directory" : "file") + " before creation " + std::to_string(at);
            box::event = [=, &rival](box::Kind k, int i, const char* p) { if (k == box::kMkdir && i == at) { rival = p; if (dir) ::mkdir(p, 0755); else { int fd = ::open(p, O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) ::close(fd); } } };
        }
    }
    auto before = box::listing(); auto fd0 = box::fds();
    umask(um);
    MC_LOG(c, "make " << path << how << " in " << t.text());
    bool r = inImpl([&] { return FileUtils::makeDir(path, mode); });
    umask(022);
    int faulted = box::faulted; bool disturbed = !rival.empty(); box::calm();
    auto after = box::listing();
    struct stat st; bool isDir = !stat(path.c_str(), &st) && S_ISDIR(st.st_mode);
    string what = "making " + path.substr(rel ? 0 : box::root.size() + 1) + how + " in " + t.text() + " returned " + (r ? "true" : "false") + " and changed" + describe(before, after);
    MC_CHECK(c, r == isDir, "report", what);
    for (auto& e : before) MC_CHECK(c, after.count(e.first) && after[e.first] == e.second, "changed", what);
    // what may be new: directories along the path
    string real = box::root; bool possible = true; string at;
    vector<string> expect;
    {
        string cur;
        for (auto& x : comp) {
            cur += (cur.empty() ? "" : "/") + x;
            auto it = before.find(cur);
            if (it == before.end()) { expect.push_back(cur); continue; }
            string kind; for (auto& y : t.n) if (y.path == cur) { kind = kname[y.k]; if (y.k == LDIR) cur = "out"; else if (y.k != DIR_) possible = false; }
            if (!possible) break;
        }
    }
    std::set<string> ok(expect.begin(), expect.end());
    for (auto& e : after) if (!before.count(e.first)) {
        bool mine = ok.count(e.first) > 0;
        if (!mine && disturbed) mine = true;
        if (!mine && disturbed) mine = true;
        MC_CHECK(c, mine, "created", what);
        struct stat s2; if (!disturbed && !lstat((box::root + "/" + e.first).c_str(), &s2)) { MC_CHECK(c, S_ISDIR(s2.st_mode), "created", what); MC_CHECK(c, (s2.st_mode & 0777) == (mode & ~um), "mode", what << " with mode " << std::oct << (s2.st_mode & 07777) << " instead of " << (mode & ~um)); }
    }
    if (possible && !faulted && !disturbed) MC_CHECK(c, r, "refused", what);
    if (r && !disturbed) for (auto& e : expect) MC_CHECK(c, after.count(e), "missing", what);
    MC_CHECK(c, box::fds() == fd0, "descriptor", "descriptors differ after " << what);
    c.outcome(std::to_string(r) + std::to_string(possible)); c.step(); c.state(t.text() + path + how + std::to_string(mode));
}
static void makingOdd(Ctx& c) {
    enter();
    int k = c.choose(6);
    string path = k == 0 ? "" : k == 1 ? "/" : k == 2 ? "." : k == 3 ? string(5000, 'x') : k == 4 ? "new" : box::root;
    bool want = k == 1 || k == 2 || k == 4 || k == 5;
    auto before = box::listing();
    bool r = inImpl([&] { return FileUtils::makeDir(path); });
    MC_CHECK(c, r == want, "report", "making '" << path.substr(0, 40) << "' returned " << r);
    box::calm(); auto after = box::listing(); if (k == 4) after.erase("new");
    MC_CHECK(c, after == before, "created", "making '" << path.substr(0, 40) << "' changed" << describe(before, after));
    c.step(); c.state(k); c.outcome(std::to_string(r));
}

// ---- listing and iterating
static bool wild(const char* p, const char* s, bool first = true) {
    if (!*p) return !*s;
    if (first && *s == '.' && *p != '.') return false;
    if (*p == '*') return wild(p + 1, s, false) || (*s && wild(p, s + 1, false));
    if (!*s) return false;
    if (*p == '[') { const char* e = strchr(p, ']'); for (const char* q = p + 1; q < e; ++q) if (*q == *s) return wild(e + 1, s + 1, false); return false; }
    if (*p == '?' || *p == *s) return wild(p + 1, s + 1, false);
    return false;
}
static FileType typeOf(K k) { switch (k) { case FILE_: return FileType::REGULAR; case DIR_: return FileType::DIRECTORY; case FIFO_: return FileType::FIFO; case SOCK_: return FileType::SOCKET; default: return FileType::SYM_LINK; } }
static string join(vector<string> v) { std::sort(v.begin(), v.end()); string s; for (auto& x : v) s += "[" + x + "]"; return s; }
static void listings(Ctx& c) {
    enter();
    int n = c.choose((c.thorough() ? 4 : 3) + 1);
    Tree t = chooseTree(c, n, n >= 3 ? vector<K>{FILE_, DIR_, LFILE} : kAll, true);
    int fault = c.choose(2); box::order = n > 1 && fault ? 2 : 0; box::noTypes = fault;
    static const vector<const char*> dirs = {"t", "t/", "$/t", "missing", "beside", "out"};
    static const vector<const char*> pats = {nullptr, "*", "a*", "?", ".*", "[bh]", "ab", "*b", ""};
    static const vector<FileType> types = {FileType::REGULAR, FileType::DIRECTORY, FileType::SYM_LINK, FileType::FIFO, FileType::SOCKET, FileType::CHAR_DEV, FileType::BLOCK_DEV};
    auto before = box::listing(); auto fd0 = box::fds();
    for (const char* d : dirs) {
        string dir = d; if (dir[0] == '$') dir = box::root + dir.substr(1);
        vector<std::pair<string, FileType>> all;
        if (dir.find("/t") != string::npos || dir[0] == 't') for (auto& x : t.n) if (x.parent < 0) all.push_back({x.path.substr(2), typeOf(x.k)});
        if (dir == "out") all = {{"keep", FileType::REGULAR}, {"sub", FileType::DIRECTORY}};
        if (n >= 3 && !c.thorough() && (dir[0] == '/' || dir == "missing" || dir == "beside" || dir == "out")) continue;
        for (auto pat : pats) for (auto ty : types) if (n < 3 || c.thorough() || ty == FileType::REGULAR || ty == FileType::DIRECTORY || ty == FileType::SYM_LINK) for (int full = 0; full < 2; ++full) {
            vector<string> want;
            for (auto& e : all) if (e.second == ty && (!pat || wild(pat, e.first.c_str()))) want.push_back(full ? dir + (dir.back() == '/' ? "" : "/") + e.first : e.first);
            auto got = inImpl([&] { return FileUtils::listAllTypedEntitiesInDir(dir.c_str(), ty, full, pat); });
            MC_CHECK(c, join(got) == join(want), "listing", "listing " << dir << " for " << FileUtils::getFileTypeName(ty) << " matching " << (pat ? pat : "anything") << " in " << t.text() << " gives " << join(got) << " instead of " << join(want));
            if (ty == FileType::REGULAR) { auto g = inImpl([&] { return FileUtils::listAllFilesInDir(dir.c_str(), full, pat); }); MC_CHECK(c, join(g) == join(want), "listing", "files of " << dir << " in " << t.text() << " are " << join(g)); }
            if (ty == FileType::DIRECTORY) { auto g = inImpl([&] { return FileUtils::listAllDirsInDir(dir.c_str(), full, pat); }); MC_CHECK(c, join(g) == join(want), "listing", "directories of " << dir << " in " << t.text() << " are " << join(g)); }
            c.step();
        }
        if (dir == "t" || dir[0] == '/') {
            static const std::regex ra("a"), rb("^b$"), rx("(a)(b)");
            static const std::regex* res[] = {nullptr, &ra, &rb, &rx};
            for (int ri = 0; ri < 4; ++ri) {
                vector<string> want, got; 
                for (auto& e : all) if (e.first[0] != '.' && (ri == 0 || (ri == 1 && e.first.find('a') != string::npos) || (ri == 2 && e.first == "b") || (ri == 3 && e.first == "ab"))) want.push_back(e.first);
                inImpl([&] {
                    FileUtils::DirEntryIterator it(dir, res[ri]);
                    for (int i = 0; it.valid() && i < 20; ++i) {
                        got.push_back(it.entry());
                        if (res[ri]) { auto& m = it.matched(); if (ri == 3 && (m.size() != 3 || m[1].str() != "a" || m[2].str() != "b")) mc::ctx().fail("matched", "the match is not that of entry " + it.entry()); }
                        if (i % 2) ++it; else it.next();
                    }
                    return 0;
                });
                MC_CHECK(c, join(got) == join(want), "iterating", "iterating over " << dir << " with pattern " << ri << " in " << t.text() << " gives " << join(got) << " instead of " << join(want));
                c.step();
            }
        }
    }
    MC_CHECK(c, box::fds() == fd0, "descriptor", "descriptors are left open by listing");
    box::calm();
    MC_CHECK(c, box::listing() == before, "changed", "listing changed the tree");
    c.state(t.text()); c.outcome(std::to_string(n));
}
// lines of every text
static void lines(Ctx& c) {
    enter();
    int n = c.choose((c.thorough() ? 8 : 6) + 1); string text;
    for (int i = 0; i < n; ++i) text += "ab\n\r"[c.choose(c.thorough() && n > 6 ? 3 : 4)];
    box::put("f", text);
    int via = c.choose(3); string path = box::root + "/f";
    if (via) { if (symlink("f", "l1")) abort(); path = "l1"; }
    if (via == 2) { if (symlink((box::root + "/l1").c_str(), "l2")) abort(); path = box::root + "/l2"; }
    vector<string> all; { string cur; bool open = false; for (char x : text) { if (x == '\n') { all.push_back(cur); cur.clear(); open = false; } else { cur += x; open = true; } } if (open) all.push_back(cur); }
    static const std::regex ra("a"), rab("(a)(b)"), re("^$");
    static const std::regex* res[] = {nullptr, &ra, &rab, &re};
    auto fd0 = box::fds();
    for (int ri = 0; ri < 4; ++ri) {
        vector<string> want, got;
        for (auto& l : all) if (ri == 0 || (ri == 1 && l.find('a') != string::npos) || (ri == 2 && l.find("ab") != string::npos) || (ri == 3 && l.empty())) want.push_back(l);
        inImpl([&] {
            FileUtils::FileLineIterator it(path, res[ri]);
            while (it.valid() && got.size() < 20) {
                got.push_back(it.entry());
                if (ri == 2) { auto& m = it.matched(); MC_CHECK(c, m[0].str() == "ab" && m.position(0) == (long)it.entry().find("ab"), "matched", "the match is not that of line " << mc::hex(it.entry())); }
                ++it;
            }
            return 0;
        });
        string g, w; for (auto& x : got) g += "[" + mc::hex(x) + "]"; for (auto& x : want) w += "[" + mc::hex(x) + "]";
        // ECMAScript's ^$ also matches at line terminators inside the line
        if (ri == 3) { w.clear(); for (auto& x : all) if (x.empty() || x.find('\r') != string::npos) { } if (text.find('\r') != string::npos) { c.step(); continue; } for (auto& x : want) w += "[" + mc::hex(x) + "]"; }
        MC_CHECK(c, g == w, "lines", "the lines of " << mc::hex(text) << " with pattern " << ri << " are " << g << " instead of " << w);
        c.step();
    }
    MC_CHECK(c, box::fds() == fd0, "descriptor", "a descriptor is left open by iterating over lines");
    c.state(text); c.outcome(std::to_string(all.size()));
}
// ---- questions about every kind of entry
static void questions(Ctx& c) {
    enter();
    K k = (K)c.choose(KINDS + 1); bool missing = k == KINDS; ::mkdir("t", 0755);
    if (!missing) makeNode(k, "t/x");
    int form = c.choose(3); string path = form == 0 ? "t/x" : form == 1 ? box::root + "/t/x" : "./t//x";
    auto fd0 = box::fds(); auto before = box::listing(); const char* p = path.c_str();
    string nm = missing ? "missing" : kname[k];
    auto ty = inImpl([&] { return FileUtils::fileType(p); });
    FileType want = missing ? FileType::NOTEXIST : typeOf(k);
    MC_CHECK(c, ty == want, "type", "the type of a " << nm << " is " << FileUtils::getFileTypeName(ty));
    static const char* names[] = {"Unknown", "NotExist", "Regular", "Directory", "SoftLink", "CharDevice", "BlockDevice", "FIFO", "Socket"};
    for (int i = 0; i <= (int)FileType::SOCKET; ++i) MC_CHECK(c, string(FileUtils::getFileTypeName((FileType)i)) == names[i], "type-name", "type " << i << " is named " << FileUtils::getFileTypeName((FileType)i));
    struct stat st; bool has = !lstat(p, &st);
    struct stat st2; bool reach = !stat(p, &st2);
    MC_CHECK(c, inImpl([&] { return FileUtils::fileSize(p); }) == (has ? (size_t)st.st_size : 0), "size", "the size of a " << nm << " is " << FileUtils::fileSize(p));
    if (has) { struct timespec ts[2] = {{1, 0}, {1234567 + (long)k, 0}}; utimensat(AT_FDCWD, p, ts, AT_SYMLINK_NOFOLLOW); }
    MC_CHECK(c, inImpl([&] { return FileUtils::fileLastUpdateTime(p); }) == (has ? 1234567 + (long)k : -1), "time", "the time of a " << nm << " is " << FileUtils::fileLastUpdateTime(p));
    MC_CHECK(c, inImpl([&] { return FileUtils::exist(path); }) == reach, "exist", "a " << nm << (reach ? " does not exist" : " exists"));
    MC_CHECK(c, !FileUtils::exist(""), "exist", "the empty path exists");
    auto rl = inImpl([&] { return FileUtils::readLink(p); });
    string target = k == LDIR ? "/out" : k == LFILE ? "/out/keep" : k == LNONE ? "/nowhere" : k == LFIFO ? "/pipe" : "";
    MC_CHECK(c, rl.ok() == !target.empty(), "readlink", "reading a " << nm << " as a link gives " << rl.status());
    if (rl.ok()) MC_CHECK(c, rl.value() == box::root + target, "readlink", "a link holds " << rl.value());
    auto rp = inImpl([&] { return FileUtils::realPath(p); });
    MC_CHECK(c, rp.ok() == reach, "realpath", "the real path of a " << nm << " gives " << rp.status());
    if (rp.ok()) MC_CHECK(c, rp.value() == (target.empty() ? box::root + "/t/x" : box::root + target), "realpath", "the real path of a " << nm << " is " << rp.value());
    // iterating over what is neither a file nor a directory fails without ending the process
    bool iter = k == FILE_ || k == DIR_ || k == LDIR || k == LFILE; bool first = false, valid = false; string err;
    inImpl([&] { FileUtils::Iterator it(path); valid = it.valid(); if (valid) first = !it.entry().empty(); err = it.status().toString(); return 0; });
    if (!missing && k == DIR_) { MC_CHECK(c, !valid && err == "EOF", "iterate", "iterating over an empty directory gives " << err); }
    else MC_CHECK(c, valid == (iter && !missing), "iterate", "iterating over a " << nm << " gives " << err);
    if (!iter || missing) MC_CHECK(c, err != "EOF", "iterate", "iterating over a " << nm << " is reported as its end");
    MC_CHECK(c, box::fds() == fd0, "descriptor", "descriptors are left open by questions about a " << nm);
    (void)first; c.step(9); c.state(nm + path); c.outcome(nm);
}
static void failingIterator(Ctx& c) {
    enter();
    int k = c.choose(3); bool link = c.flip();
    if (k == 0) ::mkdir("d", 0755); else box::put("d", "text\n");
    if (link && symlink("d", "l")) abort();
    string path = link ? "l" : "d";
    if (k == 0) { box::faultKind = box::kOpendir; box::faultAt = 1; box::faultErr = EACCES; }
    bool valid; string err;
    inImpl([&] { FileUtils::Iterator it(path); valid = it.valid(); err = it.status().toString(); return 0; });
    if (k == 0) MC_CHECK(c, !valid && err != "EOF", "iterate", "iterating over a directory that cannot be opened gives " << err);
    else MC_CHECK(c, valid, "iterate", "iterating over a file gives " << err);
    c.step(); c.state(k * 2 + link); c.outcome(err.substr(0, 8));
}
// the whole of a long link is read
static void links(Ctx& c) {
    enter();
    static const vector<int> lens = {1, 100, 254, 255, 256, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095};
    int n = c.pick(lens); string t; while ((int)t.size() < n) t += t.size() % 200 == 199 ? '/' : 'x';
    if (symlink(t.c_str(), "l")) throw mc::Abandon();
    auto r = inImpl([&] { return FileUtils::readLink("l"); });
    MC_CHECK(c, r.ok() && r.value() == t, "readlink", "a link of " << n << " characters is read as " << (r.ok() ? std::to_string(r.value().size()) + " characters" : r.status().toString()));
    c.step(); c.state(n); c.outcome(r.ok() ? "ok" : "error");
}
static void renames(Ctx& c) {
    enter(); ::mkdir("t", 0755);
    static const vector<K> ks = {FILE_, DIR_, LDIR, LFILE, LNONE, KINDS};
    K a = c.pick(ks), b = c.pick(ks); int shape = c.choose(3);
    if (a != KINDS) makeNode(a, "t/x"); if (b != KINDS) makeNode(b, "t/y");
    if (a == DIR_) box::put("t/x/in", "inner"); if (b == DIR_ && shape == 1) box::put("t/y/in", "inner");
    string dst = shape == 2 ? "t/x/z" : "t/y";
    auto before = box::listing();
    bool r = inImpl([&] { return FileUtils::rename("t/x", dst); });
    auto after = box::listing();
    bool can = a != KINDS && shape != 2 && !(a == DIR_ && b != KINDS && b != DIR_) && !(a != DIR_ && b == DIR_) && !(a == DIR_ && b == DIR_ && shape == 1);
    if (shape == 2) can = a == LDIR ? true : false;
    if (shape == 2 && a == LDIR) throw mc::Abandon();
    MC_CHECK(c, r == can, "rename", "renaming a " << (a == KINDS ? "missing entry" : kname[a]) << " over a " << (b == KINDS ? "missing entry" : kname[b]) << " returned " << r);
    if (!r) MC_CHECK(c, before == after, "rename", "a failed renaming changed" << describe(before, after));
    else { auto want = before; for (auto& e : before) if (under(e.first, dst)) want.erase(e.first); for (auto& e : before) if (under(e.first, "t/x")) { want.erase(e.first); want[dst + e.first.substr(3)] = e.second; } MC_CHECK(c, want == after, "rename", "renaming changed" << describe(before, after)); }
    c.step(); c.state(a * 100 + b * 10 + shape); c.outcome(std::to_string(r));
}
// ---- path texts
static void paths(Ctx& c) {
    int n = c.choose((c.thorough() ? 10 : 8) + 1); string p;
    for (int i = 0; i < n; ++i) p += "/ab.\n"[c.choose(n > 7 ? 3 : i < 6 ? 5 : 3)];
    string q; bool last = false; for (char x : p) { if (x == '/' && last) continue; last = x == '/'; q += x; }       // slashes once
    if (q.size() > 1 && q.back() == '/') q.pop_back();
    // dividing
    std::unique_ptr<char[]> buf(new char[p.size()]); memcpy(buf.get(), p.data(), p.size());
    folly::StringPiece parent("?"), child("?");
    FileUtils::dividePath(folly::StringPiece(buf.get(), p.size()), parent, child);
    string dp = parent.toString(), dc = child.toString();
    bool doubled = p.find("//") != string::npos;
    if (p.empty() || p == "/") MC_CHECK(c, dp.empty() && dc == p, "divide", "'" << mc::hex(p) << "' divided into '" << mc::hex(dp) << "' and '" << mc::hex(dc) << "'");
    else if (!doubled) {
        size_t k = q.rfind('/'); string wp = k == string::npos ? "" : k == 0 ? "/" : q.substr(0, k), wc = k == string::npos ? q : q.substr(k + 1);
        MC_CHECK(c, dp == wp && dc == wc, "divide", "'" << mc::hex(p) << "' divided into '" << mc::hex(dp) << "' and '" << mc::hex(dc) << "'");
    } else {
        // with repeated slashes the two parts still name the same place
        string j = dp + (dp.empty() ? "" : "/") + dc, s; bool l = false; for (char x : j) { if (x == '/' && l) continue; l = x == '/'; s += x; } if (s.size() > 1 && s.back() == '/') s.pop_back();
        MC_CHECK(c, s == q && dc.find('/') == string::npos, "divide", "'" << mc::hex(p) << "' divided into '" << mc::hex(dp) << "' and '" << mc::hex(dc) << "'");
    }
    if (!p.empty()) {
        string d = FileUtils::dirname(p.c_str()), b = FileUtils::basename(p.c_str());
        string wd, wb;
        if (q == "/") { wd = "/"; wb = ""; } else { size_t k = q.rfind('/'); wd = k == string::npos ? "." : k == 0 ? "/" : q.substr(0, k); wb = k == string::npos ? q : q.substr(k + 1); }
        string s; bool l = false; for (char x : d) { if (x == '/' && l) continue; l = x == '/'; s += x; } if (s.size() > 1 && s.back() == '/') s.pop_back();
        MC_CHECK(c, s == wd, "dirname", "the directory part of '" << mc::hex(p) << "' is '" << mc::hex(d) << "' instead of '" << mc::hex(wd) << "'");
        MC_CHECK(c, b == wb, "basename", "the last part of '" << mc::hex(p) << "' is '" << mc::hex(b) << "' instead of '" << mc::hex(wb) << "'");
    }
    // joining every split of it
    for (size_t i = 0; i <= p.size(); ++i) {
        string a = p.substr(0, i), b = p.substr(i);
        std::unique_ptr<char[]> x(new char[a.size()]), y(new char[b.size()]); memcpy(x.get(), a.data(), a.size()); memcpy(y.get(), b.data(), b.size());
        string j = FileUtils::joinPath(folly::StringPiece(x.get(), a.size()), folly::StringPiece(y.get(), b.size()));
        string w = (a.empty() ? "./" : a.back() == '/' ? a : a + "/") + b;
        MC_CHECK(c, j == w, "join", "'" << mc::hex(a) << "' and '" << mc::hex(b) << "' joined give '" << mc::hex(j) << "'");
    }
    c.step(3); c.state(p); c.outcome(dp);
}
static void longPaths(Ctx& c) {
    int n = 1 << c.choose(13); string a(n, 'a'), deep; while ((int)deep.size() < n) deep += "d/";
    string p = c.flip() ? a + "/x" : deep + "x";
    MC_CHECK(c, FileUtils::dirname(p.c_str()) == p.substr(0, p.size() - 2) && FileUtils::basename(p.c_str()) == "x", "dirname", "the parts of a path of " << p.size() << " characters are wrong");
    c.step(); c.state(p); c.outcome(std::to_string(n));
}
static void space(Ctx& c) {
    static const vector<uint64_t> blocks = {0, 1, 7, 1ull << 31, 1ull << 32, (1ull << 40) + 3}; static const vector<long> sizes = {1, 512, 4096, 1 << 20};
    memset(&g_stat, 0, sizeof g_stat); g_stat.f_bfree = c.pick(blocks); g_stat.f_bavail = c.pick(blocks); g_stat.f_blocks = 1ull << 50; g_stat.f_bsize = c.pick(sizes); g_stat.f_frsize = g_stat.f_bsize;
    g_statErr = c.choose(3) ? 0 : EACCES; g_fakeStat = true;
    auto f = FileUtils::free("/some/where"), a = FileUtils::available("/some/where");
    g_fakeStat = false;
    MC_CHECK(c, f.ok() == !g_statErr && a.ok() == !g_statErr, "space", "the free space is reported " << f.ok() << a.ok() << " when the call fails with " << g_statErr);
    if (f.ok()) MC_CHECK(c, f.value() == g_stat.f_bfree * (uint64_t)g_stat.f_bsize && a.value() == g_stat.f_bavail * (uint64_t)g_stat.f_bsize, "space", g_stat.f_bfree << " free and " << g_stat.f_bavail << " available blocks of " << g_stat.f_bsize << " give " << f.value() << " and " << a.value());
    c.step(2); c.state(g_stat.f_bfree * 31 + g_stat.f_bavail * 7 + g_stat.f_bsize); c.outcome(std::to_string(f.ok()));
}

extern void (*mc_log_hook)(int, const char*);
int main(int argc, char** argv) {
    mc_log_hook = [](int, const char* m) { int e = errno; if (mc::active() && mc::ctx().logging()) mc::ctx().log(string("log: ") + m + " errno " + std::to_string(e)); errno = e; };
    if (!box::create("c33")) return 2;
    vector<mc::Scenario> sc;
    sc.push_back({"removing", [](Ctx& c) { removal(c, false, false); }, false, "all trees of up to 3 (4) entries of 7 kinds, removing the tree or an entry, recursively or not, in 2 orders of reading, with and without entry types"});
    sc.push_back({"removing-failures", [](Ctx& c) { removal(c, true, false); }, false, "all trees of up to 3 (4) files and directories (and links), the n-th call of each of 5 kinds failing"});
    sc.push_back({"removing-disturbed", [](Ctx& c) { removal(c, false, true); }, false, "all trees of up to 3 (4) files and directories (and links), others removing any entry or creating one before any call"});
    sc.push_back({"making", [](Ctx& c) { making(c, false); }, false, "all trees of up to 2 (3) entries of 6 kinds, all paths of up to 3 names written in 24 ways, 2 modes, 2 umasks"});
    sc.push_back({"making-failures", [](Ctx& c) { making(c, true); }, false, "the same with the n-th creation failing or overtaken by others"});
    sc.push_back({"making-odd", makingOdd, false, "6 odd paths"});
    sc.push_back({"listing", listings, false, "all trees of up to 3 (4) entries of 7 kinds under 4 names, 6 directories, 9 patterns, 7 types, names or paths; iteration with 4 patterns"});
    sc.push_back({"lines", lines, false, "all texts of up to 6 (8) characters of 4, reached directly or over one or two links, 4 patterns"});
    sc.push_back({"questions", questions, false, "8 kinds of entries and none, 3 ways to write the path"});
    sc.push_back({"iterator-failures", failingIterator, false, "directory or file, directly or over a link, opening failing or not"});
    sc.push_back({"long-links", links, false, "13 lengths up to the limit of the system"});
    sc.push_back({"renaming", renames, false, "6 x 6 kinds of entries"});
    sc.push_back({"paths", paths, false, "all texts of up to 8 (10) characters of 3 to 5: divided, directory and last part; every split joined"});
    sc.push_back({"long-paths", longPaths, false, "lengths up to 4096"});
    sc.push_back({"space", space, false, "6 x 6 numbers of blocks of 4 sizes, failing or not"});
    int rc = mc::run(argc, argv, "C33", sc, {"the file system follows POSIX", "calls made to remove a link are not written with a slash at its end"});
    box::destroy();
    return rc;
}
