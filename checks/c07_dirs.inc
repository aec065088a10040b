// temporary directories: created, filled, destroyed
using nebula::fs::TempDir;
static const std::vector<Tmpl> dirTmpl = {{"$/d.XXXXXX", true}, {"$/XXXXXX", true}, {"rel.XXXXXX", true}, {"$/sub.dir/aXXXXXX", true}, {"$/XXXXXXXXXXXX", true},
    {"$/missing/aXXXXXX", false}, {"$/noX", false}, {"$/fiveXXXXX", false}, {"$/XXXXXX.txt", false}, {"$/keep/XXXXXX", false}, {"", false}};
// what the directory gets to hold before it is destroyed
static void fillDir(const std::string& d, int k) {
    auto file = [&](const std::string& p) { FILE* f = fopen((d + "/" + p).c_str(), "w"); if (f) { fputs("x", f); fclose(f); } };
    if (k & 1) { file("one"); file(".hidden"); }
    if (k & 2) { ::mkdir((d + "/in").c_str(), 0755); file("in/two"); ::mkdir((d + "/in/deep").c_str(), 0755); file("in/deep/three"); ::mkdir((d + "/empty").c_str(), 0755); }
    if (k & 4) { for (auto& l : std::vector<std::pair<std::string, std::string>>{{g_root + "/sub.dir", "out"}, {g_root + "/keep", "file"}, {"nowhere", "dangling"}}) if (symlink(l.first.c_str(), (d + "/" + l.second).c_str()) && errno != EEXIST) abort(); }
}
static void dirHistory(Ctx& c, bool withFaults) {
    setup();
    struct Obj { std::unique_ptr<TempDir> f; std::string path; bool del; bool there; };
    std::vector<Obj> o;
    auto fd0 = fds();
    int depth = c.thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i) {
        int nt = withFaults ? 2 : i < 2 ? (int)dirTmpl.size() : 4;
        int k = c.choose(nt * 2 + 4);
        g_f = Faults();
        if (k < nt * 2) {
            const Tmpl& t = dirTmpl[k / 2]; bool del = k % 2 == 0;
            if (withFaults) g_f.create = c.pick(createErr);
            std::string tmpl = expand(t.t);
            bool two = !withFaults && i == 0 && tmpl.find('/') != std::string::npos && c.flip();      // parent and name given apart
            MC_LOG(c, "create " << tmpl << (del ? "" : " kept") << " create errno " << g_f.create);
            auto buf = std::make_unique<char[]>(tmpl.size() + 1); strcpy(buf.get(), tmpl.c_str());
            auto b4 = listing(); g_failedCreate = 0;
            Obj n; n.del = del;
            g_active = true;
            if (two) { size_t s = tmpl.rfind('/'); std::string pa = tmpl.substr(0, s + (i % 2)), nm = tmpl.substr(s + 1); if (del) n.f.reset(new TempDir(pa.c_str(), nm.c_str())); else n.f.reset(new TempDir(pa.c_str(), nm.c_str(), false)); }
            else if (del && i % 2) n.f.reset(new TempDir(buf.get())); else n.f.reset(new TempDir(buf.get(), del));
            g_active = false;
            MC_CHECK(c, strcmp(buf.get(), tmpl.c_str()) == 0, "template-changed", "the caller's template was modified to " << buf.get());
            memset(buf.get(), '#', tmpl.size()); buf.reset();
            auto now = listing(); const char* pp = n.f->path();
            if (!pp) {
                MC_CHECK(c, !t.valid || g_failedCreate, "refused", "creation of a directory from " << tmpl << " failed although every call succeeded");
                MC_CHECK(c, now == b4, "left-behind", "a failed creation left something behind or removed something");
                n.there = false;
            } else {
                n.path = pp; std::string r = rel(n.path);
                MC_CHECK(c, t.valid, "accepted", "a directory was reported for the invalid template " << tmpl << ": " << n.path);
                MC_CHECK(c, matches(n.path, tmpl), "path", "path " << n.path << " does not match " << tmpl);
                MC_CHECK(c, !b4.count(r) && now.count(r), "exists", n.path << " existed before or does not exist");
                struct stat st; MC_CHECK(c, lstat(n.path.c_str(), &st) == 0 && S_ISDIR(st.st_mode) && (st.st_mode & 07777) == 0700, "mode", n.path << " is no private directory");
                auto x = now; x.erase(r); MC_CHECK(c, x == b4, "side-effect", "creating " << n.path << " changed other files");
                n.there = true;
            }
            o.push_back(std::move(n));
            c.outcome(pp ? "created" : "refused");
        } else if (k == nt * 2) {            // filled
            if (o.empty() || !o.back().there) continue;
            int what = 1 + c.choose(7); MC_LOG(c, "filled " << what); fillDir(o.back().path, what); if (!listing().count(rel(o.back().path))) abort();
        } else if (k == nt * 2 + 1) {        // someone else removes it
            if (o.empty() || !o.back().there) continue;
            MC_LOG(c, "removed by others"); wipe(o.back().path); ::rmdir(o.back().path.c_str()); o.back().there = false;
        } else {                             // destroy the oldest or the youngest
            if (o.empty() || (k == nt * 2 + 3 && o.size() == 1)) continue;
            size_t at = k == nt * 2 + 2 ? 0 : o.size() - 1;
            if (withFaults) g_f.remove = std::vector<int>{0, EACCES}[c.choose(2)];
            MC_LOG(c, "destroy " << o[at].path << " remove errno " << g_f.remove);
            auto b4 = listing();
            g_active = true; o[at].f.reset(); g_active = false;
            auto now = listing();
            if (o[at].del && !o[at].path.empty() && !g_f.remove) {
                std::string r = rel(o[at].path);
                for (auto it = b4.begin(); it != b4.end();) if (it->first == r || it->first.compare(0, r.size() + 1, r + "/") == 0) it = b4.erase(it); else ++it;
                MC_CHECK(c, !now.count(r), "not-removed", o[at].path << " still exists after destruction");
            }
            MC_CHECK(c, now == b4, "removed-other", "destruction of " << o[at].path << " changed other files");
            c.outcome(o[at].del ? "removed" : "kept");
            o.erase(o.begin() + at);
        }
        g_f = Faults();
        c.step();
        MC_CHECK(c, fds() == fd0, "descriptor", "a descriptor is left open (or a foreign one closed)");
        for (auto& x : o) MC_CHECK(c, x.path == (x.f->path() ? x.f->path() : ""), "path", "path() changed from " << x.path);
        c.state(std::to_string(o.size()) + "d" + std::to_string(k));
    }
    auto b4 = listing();
    for (auto& x : o) if (x.del && !x.path.empty()) { std::string r = rel(x.path); for (auto it = b4.begin(); it != b4.end();) if (it->first == r || it->first.compare(0, r.size() + 1, r + "/") == 0) it = b4.erase(it); else ++it; }
    g_active = true; o.clear(); g_active = false;
    MC_CHECK(c, listing() == b4, "removed-other", "after destroying everything other files differ");
    MC_CHECK(c, fds() == fd0, "descriptor", "descriptors differ at the end");
}
static void dirLeaks(Ctx& c) {
    setup();
    int t = c.choose(dirTmpl.size()); int err = c.pick(createErr); bool del = c.flip();
    std::string s = expand(dirTmpl[t].t);
    auto once = [&] { g_f.create = err; g_active = true; { TempDir f(s.c_str(), del); } g_active = false; };
    once();
    long b = mc::heap_live(); once(); long e = mc::heap_live();
    MC_CHECK(c, b == e, "leak", "creating and destroying a temporary directory leaves " << e - b << " blocks");
    c.step(2); c.state("d" + std::to_string(t * 10 + err)); c.outcome(std::to_string(err));
}
static void addDirs(std::vector<mc::Scenario>& sc) {
    sc.push_back({"dir-histories", [](Ctx& c) { dirHistory(c, false); }, false, "all histories of 3 (4) operations: 11 templates (6 invalid) x automatic deletion, given whole or in two parts, filled in 7 ways, removed by others, destroyed oldest/youngest first"});
    sc.push_back({"dir-failures", [](Ctx& c) { dirHistory(c, true); }, false, "the same over 2 templates with 6 outcomes of creation and 2 of removal"});
    sc.push_back({"dir-leaks", dirLeaks, false, "11 templates x 6 outcomes of creation"});
}
