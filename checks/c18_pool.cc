// C18: object pool. Histories and interleavings with lifetime-tracked objects.
#include "common/base/Base.h"
#include "mc.h"
#include "vsched.h"
#include "common/base/ObjectPool.h"
#include <map>
#include <memory>
#include <stdexcept>
#include <thread>
using mc::Ctx; using nebula::ObjectPool;
#define NT __attribute__((no_sanitize("thread")))

namespace {
struct Live { std::map<const void*, std::string> objs; std::map<std::string, int> born, died; };
Live* g = nullptr;
NT void born(const void* p, const char* t) { mc::sched::IgnoreScope s; g->objs[p] = t; g->born[t]++; }
NT void died(const void* p, const char* t) { mc::sched::IgnoreScope s; auto i = g->objs.find(p); if (i == g->objs.end() || i->second != t) mc::ctx().fail("destroy", std::string("a ") + t + " was destroyed that is not alive as such"); g->objs.erase(i); g->died[t]++; }
struct Small { char c; explicit Small(char x = 's') : c(x) { born(this, "small"); } ~Small() { died(this, "small"); } };
struct Base { virtual ~Base() {} int b = 1; };
struct Other { virtual ~Other() {} int o = 2; };
struct Derived : Base, Other { std::string text; Derived(const std::string& t, std::unique_ptr<int> p) : text(t), q(std::move(p)) { born(static_cast<const Derived*>(this), "derived"); } ~Derived() override { died(static_cast<const Derived*>(this), "derived"); } std::unique_ptr<int> q; };
struct Big { char data[5000]; Big() { data[4999] = 'b'; born(this, "big"); } ~Big() { died(this, "big"); } };
struct Thrower { int pad = 0; Small inner; explicit Thrower(bool t) { if (t) throw std::runtime_error("no"); born(this, "thrower"); } ~Thrower() { died(this, "thrower"); } };
struct alignas(64) Aligned { int v = 3; Aligned() { born(this, "aligned"); } ~Aligned() { died(this, "aligned"); } };
}  // namespace

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"histories", [](Ctx& c) {
        Live live; g = &live;
        {
            std::vector<std::unique_ptr<ObjectPool>> pools; pools.push_back(std::make_unique<ObjectPool>()); pools.push_back(std::make_unique<ObjectPool>());
            std::vector<std::pair<const void*, std::string>> own[2]; int depth = c.thorough() ? 6 : 5;
            for (int i = 0; i < depth; ++i) {
                int k = c.choose(13), w = k == 12 ? 1 : 0; ObjectPool& p = *pools[w]; c.step();
                switch (k) {
                    case 0: case 12: { auto* s = new Small('x'); auto* r = p.add(s); MC_CHECK(c, r == s, "address", "add returns another object"); own[w].push_back({s, "small"}); break; }
                    case 1: { auto* s = p.makeAndAdd<Small>('y'); MC_CHECK(c, s->c == 'y', "make", "the argument is lost"); own[w].push_back({s, "small"}); break; }
                    case 2: { auto* d = p.makeAndAdd<Derived>(std::string("text"), std::make_unique<int>(7)); MC_CHECK(c, d->text == "text" && *d->q == 7, "make", "the arguments are lost"); own[w].push_back({d, "derived"}); break; }
                    case 3: { auto* d = new Derived("t", nullptr); Other* o = p.add<Other>(d); MC_CHECK(c, o == static_cast<Other*>(d) && o->o == 2, "address", "add through a base returns another object"); own[w].push_back({d, "derived"}); break; }
                    case 4: own[w].push_back({p.makeAndAdd<Big>(), "big"}); break;
                    case 5: { bool threw = false; try { p.makeAndAdd<Thrower>(true); } catch (const std::runtime_error&) { threw = true; } MC_CHECK(c, threw, "throw", "the exception of a constructor is swallowed"); break; }
                    case 6: { auto* t = p.makeAndAdd<Thrower>(false); own[w].push_back({t, "thrower"}); own[w].push_back({&t->inner, "small"}); break; }
                    case 7: p.clear(); own[w].clear(); break;
                    case 8: pools[0].reset(); own[0].clear(); pools[0] = std::make_unique<ObjectPool>(); break;
                    case 9: std::swap(pools[0], pools[1]); std::swap(own[0], own[1]); break;
                    case 10: own[w].push_back({p.makeAndAdd<Aligned>(), "aligned"}); break;
                    case 11: { auto* d = new Derived("u", nullptr); Base* b = d; p.add(b); own[w].push_back({d, "derived"}); break; }
                }
                size_t n = own[0].size() + own[1].size();
                MC_CHECK(c, live.objs.size() == n, "alive", live.objs.size() << " objects are alive instead of " << n);
                for (auto& o : own) for (auto& x : o) { auto it = live.objs.find(x.first); MC_CHECK(c, it != live.objs.end() && it->second == x.second, "alive", "a " << x.second << " owned by a pool is gone"); }
                for (int q = 0; q < 2; ++q) MC_CHECK(c, pools[q]->empty() == own[q].empty(), "empty", "empty() is " << pools[q]->empty() << " with " << own[q].size() << " objects");
                c.state(std::to_string(own[0].size()) + "," + std::to_string(own[1].size()) + "," + std::to_string(k));
            }
        }
        MC_CHECK(c, live.objs.empty(), "leak", live.objs.size() << " objects outlive their pools");
        for (auto& b : live.born) MC_CHECK(c, live.died[b.first] == b.second, "leak", "a " << b.first << " was not destroyed through its type");
        c.outcome(std::to_string(live.born.size()));
    }, false, "all histories of 5 (6) of 13 operations on two pools with seven ways of adding"});
    sc.push_back({"threads", [](Ctx& c) {
        Live live; g = &live; int n = 2 + c.choose(2), pr[3]; for (int i = 0; i < n; ++i) pr[i] = c.choose(5);
        bool drop = c.flip();
        mc::sched::Opts o; o.preemptions = c.thorough() ? 5 : 3;
        mc::sched::run(c, o, [&] {
            auto pool = std::make_unique<ObjectPool>(); std::vector<std::thread> ts; int cleared = 0; for (int i = 0; i < n; ++i) cleared += pr[i] == 2;
            for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { ObjectPool& p = *pool; mc::ctx().step(2);
                switch (pr[i]) {
                    case 0: { auto* a = p.makeAndAdd<Small>('a'); auto* b = p.makeAndAdd<Derived>(std::string("b"), nullptr); if (!cleared) { MC_CHECK(mc::ctx(), a->c == 'a' && b->text == "b", "alive", "an added object changed"); } break; }
                    case 1: p.add(new Big); if (!cleared) MC_CHECK(mc::ctx(), !p.empty(), "empty", "empty() after an add"); break;
                    case 2: p.clear(); p.makeAndAdd<Small>('c'); break;
                    case 3: (void)p.empty(); p.add<Other>(new Derived("d", nullptr)); break;
                    case 4: (void)p.empty(); (void)p.empty(); break;
                } });
            for (auto& t : ts) t.join();
            int made = 0; for (auto& b : live.born) made += b.second; int gone = 0; for (auto& d : live.died) gone += d.second;
            if (!cleared) MC_CHECK(mc::ctx(), gone == 0, "alive", "objects were destroyed before the pool was cleared");
            MC_CHECK(mc::ctx(), pool->empty() == (made == gone), "empty", "empty() is " << pool->empty() << " with " << made - gone << " objects");
            if (drop) { pool->clear(); MC_CHECK(mc::ctx(), live.objs.empty() && pool->empty(), "leak", "objects survive clear()"); }
            pool.reset();
            MC_CHECK(mc::ctx(), live.objs.empty(), "leak", "objects outlive their pool");
            mc::ctx().outcome(std::to_string(made) + "/" + std::to_string(gone));
        });
        c.state(std::to_string(n) + std::to_string(pr[0]) + std::to_string(pr[1]));
    }, false, "all combinations of 5 programs over two and three threads, all interleavings with 3 (5) preemptions"});
    return mc::run(argc, argv, "C18", sc, {"Object destructors do not use the pool that owns the object."});
}
