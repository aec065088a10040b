// A scratch directory with the real file system underneath, confined and with chosen failures: the calls that create, remove or rename are
// refused outside the scratch directory, can be made to fail, and directory reading can be reordered, disturbed or made to give no types.
#pragma once
#include "mc.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace box {
inline std::string root;            // scratch directory of this process
inline std::string parent;          // of all processes
inline bool active = false;         // inside the implementation
// the at'th call of a kind fails with err, or `event` happens just before it
enum Kind { kUnlink, kRmdir, kMkdir, kOpendir, kReaddir, kClosedir, kRename, kKinds };
inline int calls[kKinds];
inline int faultKind = -1, faultAt = 0, faultErr = 0;
inline std::function<void(Kind, int, const char*)> event;
inline int order = 0;               // 0 as is, 1 ascending, 2 descending
inline bool noTypes = false;
inline int faulted = 0;
inline std::string absolute(const char* p) { if (!p) return ""; if (*p == '/') return p; char cwd[4096]; return std::string(getcwd(cwd, sizeof cwd) ? cwd : "") + "/" + p; }
inline bool inside(const char* p) { std::string a = absolute(p); return (a == root || a.compare(0, root.size() + 1, root + "/") == 0) && a.find("/..") == std::string::npos; }
inline void confine(const char* p, const char* what) { if (active && !inside(p)) { active = false; mc::ctx().fail("escape", std::string(what) + " of " + (p ? p : "null") + ", which lies outside"); } }
inline bool hit(Kind k, const char* p) {
    if (!active) return false;
    int n = ++calls[k];
    if (event) { active = false; int e = errno; event(k, n, p); errno = e; active = true; }
    if (faultKind == k && faultAt == n) { errno = faultErr; ++faulted; return true; }
    return false;
}
inline void calm() { faultKind = -1; faultAt = faultErr = faulted = 0; event = nullptr; order = 0; noTypes = false; memset(calls, 0, sizeof calls); active = false; }
inline void listInto(const std::string& dir, const std::string& pre, std::map<std::string, std::string>& out) {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st; std::string full = dir + "/" + n;
        if (lstat(full.c_str(), &st)) continue;
        char desc[64]; snprintf(desc, sizeof desc, "%o/%lu/%ld", st.st_mode, (unsigned long)st.st_ino, S_ISDIR(st.st_mode) ? 0L : (long)st.st_size);
        out[pre + n] = desc;
        if (S_ISDIR(st.st_mode)) listInto(full, pre + n + "/", out);
    }
    closedir(d);
}
inline std::map<std::string, std::string> listing() { std::map<std::string, std::string> m; listInto(root, "", m); return m; }
inline std::set<int> fds() {
    std::set<int> s; DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d)) { int n = atoi(e->d_name); if (e->d_name[0] != '.' && n != dirfd(d)) s.insert(n); }
    closedir(d); return s;
}
inline void wipe(const std::string& dir) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    std::vector<std::string> v; while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d);
    for (auto& n : v) { std::string f = dir + "/" + n; struct stat st; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0700); wipe(f); ::rmdir(f.c_str()); } else ::unlink(f.c_str()); }
}
inline void put(const std::string& rel, const std::string& text = "keep") { FILE* f = fopen((root + "/" + rel).c_str(), "w"); if (f) { fwrite(text.data(), 1, text.size(), f); fclose(f); } }
// an empty scratch directory, current
inline void enter() {
    calm();
    std::string mine = parent + "/" + std::to_string(getpid());
    if (root != mine) { root = mine; ::mkdir(root.c_str(), 0755); }
    wipe(root);
    if (chdir(root.c_str())) abort();
}
inline bool create(const char* name) {
    for (const char* base : {"/dev/shm", "/tmp"}) {
        std::string t = std::string(base) + "/mc_" + name + ".XXXXXX";
        static auto real = (char* (*)(char*))dlsym(RTLD_NEXT, "mkdtemp");
        if (real(&t[0])) { parent = t; return true; }
    }
    perror("scratch directory");
    return false;
}
inline void destroy() { active = false; if (chdir("/")) return; wipe(parent); static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "rmdir"); real(parent.c_str()); }
inline std::map<DIR*, std::vector<dirent>>& cached() { static std::map<DIR*, std::vector<dirent>> m; return m; }
inline std::map<DIR*, size_t>& cursor() { static std::map<DIR*, size_t> m; return m; }
}  // namespace box

extern "C" {
int unlink(const char* p) { static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink"); box::confine(p, "removal"); if (box::hit(box::kUnlink, p)) return -1; return real(p); }
int rmdir(const char* p) { static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "rmdir"); box::confine(p, "removal"); if (box::hit(box::kRmdir, p)) return -1; return real(p); }
int remove(const char* p) {
    static auto real = (int (*)(const char*))dlsym(RTLD_NEXT, "remove"); box::confine(p, "removal");
    struct stat st; bool dir = !lstat(p, &st) && S_ISDIR(st.st_mode);
    if (box::hit(dir ? box::kRmdir : box::kUnlink, p)) return -1;
    return real(p);
}
int unlinkat(int d, const char* p, int fl) { static auto real = (int (*)(int, const char*, int))dlsym(RTLD_NEXT, "unlinkat"); if (d == AT_FDCWD) box::confine(p, "removal"); if (box::hit(fl & AT_REMOVEDIR ? box::kRmdir : box::kUnlink, p)) return -1; return real(d, p, fl); }
int rename(const char* a, const char* b) { static auto real = (int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename"); box::confine(a, "renaming"); box::confine(b, "renaming"); if (box::hit(box::kRename, a)) return -1; return real(a, b); }
int mkdir(const char* p, mode_t m) { static auto real = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, "mkdir"); box::confine(p, "creation"); if (box::hit(box::kMkdir, p)) return -1; return real(p, m); }
char* mkdtemp(char* t) { static auto real = (char* (*)(char*))dlsym(RTLD_NEXT, "mkdtemp"); box::confine(t, "creation"); if (box::hit(box::kMkdir, t)) return nullptr; return real(t); }
DIR* opendir(const char* p) { static auto real = (DIR* (*)(const char*))dlsym(RTLD_NEXT, "opendir"); if (box::hit(box::kOpendir, p)) return nullptr; return real(p); }
static dirent* boxReaddir(DIR* d, dirent* (*real)(DIR*)) {
    if (!box::active) return real(d);
    auto& v = box::cached()[d];
    auto it = box::cursor().find(d);
    if (it == box::cursor().end()) {
        box::active = false; int e = errno;
        while (dirent* x = real(d)) v.push_back(*x);
        errno = e; box::active = true;
        if (box::order) std::stable_sort(v.begin(), v.end(), [](const dirent& a, const dirent& b) { int c = strcmp(a.d_name, b.d_name); return box::order == 1 ? c < 0 : c > 0; });
        if (box::noTypes) for (auto& x : v) x.d_type = DT_UNKNOWN;
        it = box::cursor().emplace(d, 0).first;
    }
    size_t i = it->second;
    if (box::hit(box::kReaddir, i < v.size() ? v[i].d_name : "")) return nullptr;
    if (i >= v.size()) return nullptr;
    ++box::cursor()[d];
    return &v[i];
}
dirent* readdir(DIR* d) { static auto real = (dirent* (*)(DIR*))dlsym(RTLD_NEXT, "readdir"); return boxReaddir(d, real); }
dirent64* readdir64(DIR* d) { static auto real = (dirent* (*)(DIR*))dlsym(RTLD_NEXT, "readdir"); return (dirent64*)boxReaddir(d, real); }
int closedir(DIR* d) {
    static auto real = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir");
    bool f = box::hit(box::kClosedir, "");
    int e = errno;
    box::cached().erase(d); box::cursor().erase(d);
    int r = real(d);
    if (f) { errno = e; return -1; }
    return r;
}
}
