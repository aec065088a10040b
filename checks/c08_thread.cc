// C08: named threads, scoped renaming and thread ids on real threads under the controlled scheduler.
#include "mc.h"
#include "vsched.h"
#include "common/thread/NamedThread.h"
#include <memory>
#include <set>
using mc::Ctx;
using nebula::thread::NamedThread;
#define NT __attribute__((no_sanitize("thread")))

NT static std::string osName() { char b[64] = {0}; prctl(PR_GET_NAME, b, 0, 0, 0); return b; }
NT static void setOsName(const std::string& s) { prctl(PR_SET_NAME, s.c_str(), 0, 0, 0); }
NT static pid_t osTid() { return (pid_t)syscall(SYS_gettid); }
static std::string cut(const std::string& s) { return s.substr(0, 15); }
static const std::vector<std::string> names = {"", "a", "worker", std::string(14, 'n'), std::string(15, 'o'), std::string(16, 'p'), "a much longer name than the system supports", "sp ace/%s"};

struct Seen { int runs = 0; std::string name; pid_t tid = 0, tid2 = 0, os = 0; long sum = 0; void* addr = nullptr; };
NT static void note(Seen& s, pid_t q1, pid_t q2) { s.runs++; s.name = osName(); s.tid = q1; s.tid2 = q2; s.os = osTid(); }
static void freeFn(Seen* s, int a, std::string b) { note(*s, nebula::thread::gettid(), nebula::thread::gettid()); s->sum = a * 1000 + (long)b.size(); }
struct Obj { Seen* s; int k; void run(int a) { note(*s, nebula::thread::gettid(), nebula::thread::gettid()); s->sum = k * 10 + a; s->addr = this; } };
struct Counted { static int copies; int v; explicit Counted(int x) : v(x) {} Counted(const Counted& o) : v(o.v) {} Counted(Counted&& o) : v(o.v) { o.v = -1; } };

NT static void check(Ctx& c, const Seen& s, const std::string& want, long sum, const char* how) {
    if (s.runs != 1) c.fail("runs", std::string(how) + ": the body ran " + std::to_string(s.runs) + " times");
    if (s.name != want) c.fail("name", std::string(how) + ": the thread is called '" + s.name + "' instead of '" + want + "'");
    if (s.tid != s.os || s.tid2 != s.os) c.fail("tid", std::string(how) + ": gettid() gives " + std::to_string(s.tid) + "/" + std::to_string(s.tid2) + ", the kernel says " + std::to_string(s.os));
    if (s.sum != sum) c.fail("arguments", std::string(how) + ": the body saw " + std::to_string(s.sum) + ", given was " + std::to_string(sum));
}
// Starts a thread whose name lives in memory that is overwritten and freed right after the constructor.
template <class... A> static NamedThread start(const std::string& name, A&&... a) {
    auto n = std::make_unique<std::string>(name);
    NamedThread t(*n, std::forward<A>(a)...);
    n->assign(n->size() + 1, '!'); n.reset();
    return t;
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"start", [](Ctx& c) {
        const std::string name = c.pick(names);
        int form = c.choose(8);
        bool temp = c.flip();
        mc::sched::Opts o; o.pool = false; o.preemptions = 2;
        mc::sched::run(c, o, [&] {
            const std::string mine = "parent-thr";
            setOsName(mine);
            auto s = std::make_unique<Seen>();
            Seen* p = s.get();
            std::string want = name.empty() ? mine : cut(name);
            long sum = 0; const char* how = "";
            NamedThread t;
            Obj obj{p, 7}; int local = 5; auto up = std::make_unique<int>(9); auto sp = std::make_shared<int>(4);
            std::string text(30, 't');
            switch (form) {
                case 0: how = "function"; t = temp ? NamedThread(std::string(name), freeFn, p, 3, std::string("abcd")) : start(name, freeFn, p, 3, std::string("abcd")); sum = 3004; break;
                case 1: how = "lambda"; t = start(name, [p] { note(*p, nebula::thread::gettid(), nebula::thread::gettid()); p->sum = 1; }); sum = 1; break;
                case 2: how = "member"; t = start(name, &Obj::run, &obj, 6); sum = 76; break;
                case 3: how = "reference"; t = start(name, [p](int& r) { note(*p, nebula::thread::gettid(), nebula::thread::gettid()); r += 10; p->sum = r; p->addr = &r; }, std::ref(local)); sum = 15; break;
                case 4: how = "shared"; t = start(name, [p](std::shared_ptr<int> q) { note(*p, nebula::thread::gettid(), nebula::thread::gettid()); p->sum = *q; }, sp); sum = 4; sp.reset(); break;
                case 5: how = "copied text"; t = start(name, [p](const std::string& q) { note(*p, nebula::thread::gettid(), nebula::thread::gettid()); p->sum = (long)q.size() + q[29]; }, text); sum = 30 + 't'; text.assign(60, '?'); break;
                case 6: how = "counted"; t = start(name, [p](const Counted& q) { note(*p, nebula::thread::gettid(), nebula::thread::gettid()); p->sum = q.v; }, Counted(12)); sum = 12; break;
                case 7: how = "callable object"; { struct Fn { Seen* s; int v; void operator()(int a, int b, int d) { note(*s, nebula::thread::gettid(), nebula::thread::gettid()); s->sum = v * 1000 + a * 100 + b * 10 + d; } }; t = start(name, Fn{p, 2}, 1, 2, 3); sum = 2123; } break;
            }
            MC_CHECK(c, t.joinable(), "joinable", "a started thread cannot be joined");
            NamedThread moved(std::move(t));
            moved.join();
            check(c, *p, want, sum, how);
            if (form == 3) MC_CHECK(c, p->addr == &local && local == 15, "arguments", "a reference argument was not passed by reference");
            if (form == 2) MC_CHECK(c, p->addr == &obj, "arguments", "the body ran on another object");
            MC_CHECK(c, osName() == mine, "parent-name", "starting a thread renamed the starting thread to '" << osName() << "'");
            MC_CHECK(c, nebula::thread::gettid() == osTid(), "tid", "gettid() of the main thread is wrong");
        });
        c.step(2); c.state(name + std::to_string(form)); c.outcome(cut(name));
    }, false, "8 names x 8 ways of passing body and arguments x 2 ways of passing the name x all interleavings with up to 2 preemptions", 20});
    sc.push_back({"several", [](Ctx& c) {
        int n = c.thorough() ? 3 : 2;
        std::vector<std::string> nm; for (int i = 0; i < n; ++i) nm.push_back(names[c.choose(3) * 2]);
        mc::sched::Opts o; o.pool = false; o.preemptions = 2;
        mc::sched::run(c, o, [&] {
            setOsName("parent-thr");
            std::vector<std::unique_ptr<Seen>> s; std::vector<NamedThread> t;
            pid_t me = nebula::thread::gettid();
            for (int i = 0; i < n; ++i) s.push_back(std::make_unique<Seen>());
            for (int i = 0; i < n; ++i) t.push_back(start(nm[i], freeFn, s[i].get(), i, std::string(i, 'x')));
            for (auto& x : t) x.join();
            std::set<pid_t> ids{me};
            for (int i = 0; i < n; ++i) { check(c, *s[i], nm[i].empty() ? "parent-thr" : cut(nm[i]), i * 1000 + i, "several"); }
            // all of them were alive at the same time only if the schedule says so; ids must match the kernel's in any case
            MC_CHECK(c, me == osTid(), "tid", "gettid() of the main thread changed");
        });
        c.step(n); c.state(nm[0] + "," + nm[1]); c.outcome(nm[0].empty() ? "0" : "1");
    }, false, "2 (3) threads x 3 names each, all interleavings with up to 2 preemptions"});
    sc.push_back({"together", [](Ctx& c) {     // threads that are alive at the same time have distinct ids; each keeps its own
        bool nested = c.flip();
        mc::sched::Opts o; o.pool = false; o.preemptions = c.thorough() ? 2 : 1;
        mc::sched::run(c, o, [&] {
            struct W { std::mutex m; std::condition_variable cv; int here = 0; pid_t a[2], b[2]; std::string n[2][3]; } w;
            auto body = [&](int i) {
                w.a[i] = nebula::thread::gettid();
                w.n[i][0] = osName();
                { NamedThread::Nominator nn("tmp" + std::to_string(i)); w.n[i][1] = osName();
                  std::unique_lock<std::mutex> l(w.m); ++w.here; w.cv.notify_all(); w.cv.wait(l, [&] { return w.here == 2; }); 
                  if (nested) { NamedThread::Nominator n2("in" + std::to_string(i)); } }
                w.n[i][2] = osName();
                w.b[i] = nebula::thread::gettid();
            };
            NamedThread t0("first", body, 0), t1("second", body, 1);
            t0.join(); t1.join();
            MC_CHECK(c, w.a[0] != w.a[1] && w.a[0] != osTid() && w.a[1] != osTid(), "tid", "two live threads share an id");
            for (int i = 0; i < 2; ++i) {
                MC_CHECK(c, w.a[i] == w.b[i], "tid", "gettid() changed within a thread");
                MC_CHECK(c, w.n[i][0] == (i ? "second" : "first") && w.n[i][2] == w.n[i][0] && w.n[i][1] == "tmp" + std::to_string(i), "name", "thread " << i << " was called " << w.n[i][0] << ", " << w.n[i][1] << ", " << w.n[i][2]);
            }
        });
        c.step(4); c.state(nested ? "n" : "p"); c.outcome("ok");
    }, false, "2 threads alive together with scoped renaming, all interleavings with 1 (2) preemptions"});
    sc.push_back({"scoped", [](Ctx& c) {       // all histories of nested scoped renamings
        setOsName("base-name");
        std::vector<std::unique_ptr<NamedThread::Nominator>> st; std::vector<std::string> want{"base-name"};
        for (int i = 0; i < 6; ++i) {
            int k = c.choose(names.size() + 2);
            if (k == 0) { if (st.empty()) continue; st.pop_back(); want.pop_back(); MC_LOG(c, "leave"); }
            else if (k == 1) { NamedThread::Nominator::set(names[2 + i % 3]); want.back() = cut(names[2 + i % 3]); MC_LOG(c, "set"); }
            else { if (st.size() >= 3) continue; const std::string& nm = names[k - 2]; MC_LOG(c, "enter '" << nm << "'"); st.push_back(std::make_unique<NamedThread::Nominator>(nm)); want.push_back(cut(nm)); }
            std::string q = "garbage"; NamedThread::Nominator::get(q);
            MC_CHECK(c, osName() == want.back(), "scoped", "the thread is called '" << osName() << "' instead of '" << want.back() << "'");
            MC_CHECK(c, q == want.back(), "scoped", "get() gives '" << q << "' instead of '" << want.back() << "'");
            c.step();
            c.state(std::to_string(want.size()) + want.back());
        }
        c.outcome(std::to_string(want.size()));
        while (!st.empty()) { st.pop_back(); want.pop_back(); MC_CHECK(c, osName() == want.back(), "scoped", "after leaving a scope the thread is called '" << osName() << "' instead of '" << want.back() << "'"); }
    }, false, "all histories of 6 of 10 operations on nested scoped names"});
    sc.push_back({"exit", [](Ctx& c) {         // the body throws nothing; a thread that outlives its handle keeps its name and arguments
        bool det = c.flip();
        mc::sched::Opts o; o.pool = false; o.preemptions = 2;
        mc::sched::run(c, o, [&] {
            setOsName("parent-thr");
            auto s = std::make_shared<Seen>(); auto done = std::make_shared<std::atomic<bool>>(false);
            {
                NamedThread t = start(std::string("detached-thread-name"), [s, done](std::string x) { note(*s, nebula::thread::gettid(), nebula::thread::gettid()); s->sum = (long)x.size(); done->store(true); }, std::string(40, 'd'));
                if (det) t.detach(); else t.join();
            }
            while (!done->load()) std::this_thread::yield();
            check(c, *s, "detached-thread", 40, "detached");
        });
        c.step(); c.state(det ? "d" : "j"); c.outcome(det ? "d" : "j");
    }, false, "joined and detached, all interleavings with up to 2 preemptions"});
    return mc::run(argc, argv, "C08", sc, {"the process does not fork between two id queries of one thread"});
}
