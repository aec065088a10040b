// C20: waiting for N accepted results out of M, all orders of completion and all mixes of results.
#include "common/base/Base.h"
#include "mc.h"
#include "heap.h"
#include "tok.h"
#include "common/base/CollectNSucceeded.h"
using mc::Ctx;
struct V { int id; explicit V(int i) : id(i) { tok::born(this, "value"); } V(V&& o) noexcept : id(o.get()) { o.id = -1; tok::born(this, "move"); } V(const V& o) : id(o.get()) { tok::born(this, "copy"); }
    ~V() { tok::dead(this); id = -2; } V& operator=(V&& o) noexcept { int i = o.get(); o.id = -1; id = i; return *this; } V& operator=(const V& o) { id = o.get(); return *this; } int get() const { tok::alive(this, "read"); return id; } };
enum { ACC, REJ, EXC, BROKEN };
typedef std::vector<std::pair<size_t, V>> Result;
struct Seen { std::vector<std::pair<size_t, int>> calls; };
// an evaluator with its own lifetime
struct Eval {
    Seen* s; const std::vector<int>* kind; V self{77};
    Eval(Seen* a, const std::vector<int>* k) : s(a), kind(k) {}
    Eval(const Eval&) = default; Eval(Eval&&) = default;
    bool operator()(size_t i, V& v) { (void)self.get(); s->calls.emplace_back(i, v.get()); return (*kind)[i] == ACC; }
};
template <class P, class F> static void body(Ctx& c, int M, std::function<V(int)> val) {
    for (bool once = true; once; once = false) {
        size_t n = c.choose(M + 2); bool small = M == 5 && !c.thorough(); int form = small ? 0 : c.choose(4);
        std::vector<int> kind(M); std::string ks;
        for (int i = 0; i < M; ++i) { kind[i] = c.choose(small ? 3 : 4); ks += "arfb"[kind[i]]; }
        std::vector<std::unique_ptr<P>> p; std::vector<F> f;
        for (int i = 0; i < M; ++i) { p.emplace_back(new P()); f.emplace_back(p[i]->getFuture()); }
        std::vector<int> left; for (int i = 0; i < M; ++i) left.push_back(i);
        int before = small ? 2 * c.choose(2) : c.choose(M + 1);
        MC_LOG(c, "N=" << n << " outcomes=" << ks << " (accepted/rejected/failed/broken) form " << form << ", " << before << " finished before the call");
        auto finish = [&] {
            int k = c.choose((int)left.size()), i = left[k]; left.erase(left.begin() + k);
            MC_LOG(c, "request " << i << " finishes");
            if (kind[i] == EXC) p[i]->setException(std::runtime_error("failed")); else if (kind[i] == BROKEN) p[i].reset(); else p[i]->setValue(val(100 + i));
            return i;
        };
        std::vector<int> order;
        for (int i = 0; i < before; ++i) order.push_back(finish());
        Seen seen; Eval keep(&seen, &kind);
        folly::Future<Result> r = folly::Future<Result>(Result());
        {
            Eval tmp(&seen, &kind);
            if (form == 0) r = nebula::collectNSucceeded(f.begin(), f.end(), n, std::move(tmp));
            else if (form == 1) r = nebula::collectNSucceeded(f, n, keep);
            else if (form == 2) r = nebula::collectNSucceeded(f, n, [e = Eval(&seen, &kind)](size_t i, V& v) mutable { return e(i, v); });
            else r = nebula::collectNSucceeded(f.begin(), f.end(), n, std::function<bool(size_t, V&)>(tmp));
        }
        // already finished requests are taken in request order
        std::sort(order.begin(), order.end());
        std::vector<std::pair<size_t, int>> want; size_t acc = 0, done = 0; bool settled = n == 0 || n > (size_t)M;
        auto take = [&](int i) { if (settled) return; ++done; if (kind[i] == ACC || kind[i] == REJ) want.emplace_back(i, 100 + i); if (kind[i] == ACC) ++acc; if (acc == n || done == (size_t)M) settled = true; };
        for (int i : order) take(i);
        bool read = false;
        auto look = [&] {
            MC_CHECK(c, read || r.isReady() == settled, "moment", "the collected result is " << (r.isReady() ? "ready" : "not ready") << " after " << done << " of " << M << " finished with " << acc << " of " << n << " accepted");
            MC_CHECK(c, seen.calls == want, "evaluated", "the evaluator saw " << seen.calls.size() << " results, the wrong index or the wrong value; " << want.size() << " non-failed results finished");
            c.state(std::to_string(settled) + "," + std::to_string(acc) + "," + std::to_string(done) + "," + std::to_string(n) + "," + std::to_string(M));
            if (settled && !read) {
                read = true;
                if (n > (size_t)M) { MC_CHECK(c, r.hasException(), "too-many", "asking for " << n << " of " << M << " did not fail"); try { std::move(r).get(); c.fail("too-many", "no exception"); } catch (const std::runtime_error& e) { MC_CHECK(c, std::string(e.what()) == "Not enough futures", "too-many", "unexpected message " << e.what()); } return; }
                MC_CHECK(c, !r.hasException(), "failed", "the collected result failed");
                Result got = std::move(r).get();
                bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); ++i) same = got[i].first == want[i].first && got[i].second.get() == want[i].second;
                std::ostringstream o; for (auto& g : got) o << " " << g.first << ":" << g.second.get();
                MC_CHECK(c, same, "list", "the collected list is [" << o.str() << " ], expected " << want.size() << " results in order of completion");
            }
        };
        look();
        while (!left.empty()) { int i = finish(); take(i); look(); c.step(1); }
        if (c.logging()) MC_LOG(c, "settled with " << want.size());
        c.outcome(std::to_string(want.size()) + "," + std::to_string(acc) + "," + std::to_string(n > (size_t)M));
    }
    MC_CHECK(c, tok::reg().live.empty(), "lifetime", tok::reg().live.size() << " values or evaluators were never destroyed");
}
int main(int argc, char** argv) {
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    for (int M = 0; M <= 5; ++M) sc.push_back({"m" + std::to_string(M), [M](Ctx& c) { tok::reg().live.clear(); body<folly::Promise<V>, folly::Future<V>>(c, M, [](int i) { return V(i); }); }, false,
        std::to_string(M) + " requests" + (M == 5 ? " (at the quick tier with one way to pass the evaluator and 0 or 2 finished before)" : "") + ", every number wanted, every outcome of each, every order of completion, every number finished before the call, four ways to pass the evaluator"});
    return mc::run(argc, argv, "C20", sc, {"futures complete on one executor, as the interface demands", "the folly futures are stand-ins with their documented semantics"});
}
