// C16: value-or-status, all histories within bounds with lifetime-tracked contents.
#include "common/base/Base.h"
#include "mc.h"
#include "heap.h"
#include "tok.h"
#include "common/base/StatusOr.h"
#include <optional>
using mc::Ctx; using nebula::Status; using nebula::StatusOr;
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal {};
static void throwFatal(const char*, int, const char*) { throw Fatal(); }
template <class F> bool rejects(F f) { try { f(); } catch (const Fatal&) { return true; } return false; }

// contents with tracked lifetimes; B converts implicitly to A and to M
struct B { int id; B(int i) : id(i) { tok::born(this, "value"); } B(const B& o) : id(o.get()) { tok::born(this, "copy"); } B(B&& o) noexcept : id(o.get()) { o.id = -1; tok::born(this, "move"); } ~B() { tok::dead(this); id = -2; } int get() const { tok::alive(this, "read"); return id; } void set(int i) { tok::alive(this, "write"); id = i; }
    B& operator=(const B& o) { id = o.get(); tok::alive(this, "assignment"); return *this; } };
struct A { int id; explicit A(int i) : id(i) { tok::born(this, "value"); } A(const A& o) : id(o.get()) { tok::born(this, "copy"); } A(A&& o) noexcept : id(o.get()) { o.id = -1; tok::born(this, "move"); }
    A(const B& o) : id(o.get()) { tok::born(this, "conversion"); } A(B&& o) : id(o.get()) { o.id = -1; tok::born(this, "conversion"); }
    A& operator=(const A& o) { id = o.get(); tok::alive(this, "assignment"); return *this; } A& operator=(A&& o) noexcept { int i = o.get(); o.id = -1; tok::alive(this, "assignment"); id = i; return *this; }
    ~A() { tok::dead(this); id = -2; } int get() const { tok::alive(this, "read"); return id; } void set(int i) { tok::alive(this, "write"); id = i; } };
struct M { int id; explicit M(int i) : id(i) { tok::born(this, "value"); } M(const M&) = delete; M(M&& o) noexcept : id(o.get()) { o.id = -1; tok::born(this, "move"); } M(B&& o) : id(o.get()) { o.id = -1; tok::born(this, "conversion"); } M(const B& o) : id(o.get()) { tok::born(this, "conversion"); }
    ~M() { tok::dead(this); id = -2; } int get() const { tok::alive(this, "read"); return id; } void set(int i) { tok::alive(this, "write"); id = i; } };

struct Ref { int st = 0; int v = 0; std::string msg; };   // 0 void, 1 status, 2 value

template <class T> void check(Ctx& c, StatusOr<T>& x, const Ref& m, const char* who) {
    const StatusOr<T>& cx = x;
    MC_CHECK(c, x.ok() == (m.st == 2) && (bool)x == (m.st == 2), "ok", who << ": ok() is " << x.ok() << " for state " << m.st);
    if (m.st == 2) {
        MC_CHECK(c, x.value().get() == m.v && cx.value().get() == m.v && &x.value() == &cx.value(), "value", who << ": value() is " << x.value().get() << " instead of " << m.v);
        MC_CHECK(c, rejects([&] { (void)cx.status(); }), "status", who << ": status() returned although a value is held");
        MC_CHECK(c, rejects([&] { (void)std::move(x).status(); }), "status", who << ": status() && returned although a value is held");
    } else {
        MC_CHECK(c, rejects([&] { (void)x.value(); }) && rejects([&] { (void)cx.value(); }) && rejects([&] { (void)std::move(x).value(); }), "value", who << ": value() returned although none is held");
        if (m.st == 1) { Status s = cx.status(); MC_CHECK(c, s.message() == m.msg && s.isKeyNotFound() == (m.v == 1) && s.ok() == (m.v == 2), "status", who << ": status() is '" << s.toString() << "'"); }
        else MC_CHECK(c, rejects([&] { (void)cx.status(); }), "status", who << ": status() returned although none is held");
    }
}
static Status mkStatus(int k) { return k == 0 ? Status::Error("boom") : k == 1 ? Status::KeyNotFound(std::string(80, 'k')) : Status::OK(); }
static Ref refStatus(int k) { return {1, k, k == 0 ? "boom" : k == 1 ? std::string(80, 'k') : ""}; }
template <class T> StatusOr<T> compute(int k) { if (k == 0) return Status::Error("boom"); if (k == 1) return T(5); T t(6); return t; }
template <class T> Status chain(StatusOr<T>& x) { NG_RETURN_IF_ERROR(x); return Status::OK(); }

template <class T> void histories(Ctx& c, int depth) {
    constexpr bool copyable = std::is_copy_constructible<T>::value;
    {
        auto x = std::make_unique<StatusOr<T>>(), y = std::make_unique<StatusOr<T>>(); auto z = std::make_unique<StatusOr<B>>();
        Ref mx, my, mz;
        for (int i = 0; i < depth; ++i) {
            int k = c.choose(copyable ? 27 : 19);
            switch (k) {
                case 0: MC_LOG(c, "x = T(1)"); *x = T(1); mx = {2, 1}; break;
                case 1: MC_LOG(c, "x = Error"); *x = mkStatus(0); mx = refStatus(0); break;
                case 2: MC_LOG(c, "x = const KeyNotFound"); { const Status s = mkStatus(1); *x = s; MC_CHECK(c, s.message() == std::string(80, 'k'), "source", "a copied status changed"); } mx = refStatus(1); break;
                case 3: MC_LOG(c, "x from Error"); x.reset(new StatusOr<T>(mkStatus(0))); mx = refStatus(0); break;
                case 4: MC_LOG(c, "x from T(2)"); x.reset(new StatusOr<T>(T(2))); mx = {2, 2}; break;
                case 5: MC_LOG(c, "y = move(x)"); *y = std::move(*x); my = mx; mx = {}; break;
                case 6: MC_LOG(c, "x from move(y)"); x.reset(new StatusOr<T>(std::move(*y))); mx = my; my = {}; break;
                case 7: MC_LOG(c, "x = move(x)"); { auto& r = *x; *x = std::move(r); } break;
                case 8: MC_LOG(c, "swap"); std::swap(*x, *y); std::swap(mx, my); break;
                case 9: MC_LOG(c, "take value"); if (mx.st == 2) { T t = std::move(*x).value(); MC_CHECK(c, t.get() == mx.v, "take", "the value taken is " << t.get()); mx = {}; } break;
                case 10: MC_LOG(c, "take status"); if (mx.st == 1) { Status s = std::move(*x).status(); MC_CHECK(c, s.message() == mx.msg && s.ok() == (mx.v == 2), "take", "the status taken is " << s.toString()); mx = {}; } break;
                case 11: MC_LOG(c, "modify"); if (mx.st == 2) { x->value().set(9); mx.v = 9; } break;
                case 12: MC_LOG(c, "z = 3"); *z = B(3); mz = {2, 3}; break;
                case 13: MC_LOG(c, "z = KeyNotFound"); *z = mkStatus(1); mz = refStatus(1); break;
                case 14: MC_LOG(c, "x = move(z)"); *x = std::move(*z); mx = mz; mz = {}; break;
                case 15: MC_LOG(c, "x from move(z)"); x.reset(new StatusOr<T>(std::move(*z))); mx = mz; mz = {}; break;
                case 16: MC_LOG(c, "x = B(4)"); *x = B(4); mx = {2, 4}; break;
                case 17: MC_LOG(c, "y = compute()"); { int w = c.choose(2); *y = compute<T>(w); my = w ? Ref{2, 5} : Ref{1, 0, "boom"}; if (my.st == 1) MC_CHECK(c, chain(*y).message() == "boom", "chain", "an early return changes the status"); else MC_CHECK(c, chain(*y).ok(), "chain", "an early return is taken for a value"); } break;
                case 18: MC_LOG(c, "x from Status::OK"); x.reset(new StatusOr<T>(Status::OK())); mx = refStatus(2); break;
                default: if constexpr (copyable) switch (k) {
                    case 19: MC_LOG(c, "y = x"); { const auto& r = *x; *y = r; } my = mx; break;
                    case 20: MC_LOG(c, "x from y"); { const auto& r = *y; x.reset(new StatusOr<T>(r)); } mx = my; break;
                    case 21: MC_LOG(c, "x = x"); { auto& r = *x; *x = r; } break;
                    case 22: MC_LOG(c, "x = own value"); if (mx.st == 2) *x = x->value(); break;
                    case 23: MC_LOG(c, "x from z"); { const auto& r = *z; x.reset(new StatusOr<T>(r)); } mx = mz; break;
                    case 24: MC_LOG(c, "x = z"); { const auto& r = *z; *x = r; } mx = mz; break;
                    case 25: MC_LOG(c, "x = const T&"); { const T t(7); *x = t; MC_CHECK(c, t.get() == 7, "source", "a copied value changed"); } mx = {2, 7}; break;
                    case 26: MC_LOG(c, "x = move(own value)"); if (mx.st == 2) *x = std::move(x->value()); break;
                } break;
            }
            c.step();
            check(c, *x, mx, "x"); check(c, *y, my, "y"); check(c, *z, mz, "z");
            int want = (mx.st == 2) + (my.st == 2) + (mz.st == 2);
            MC_CHECK(c, (int)tok::reg().live.size() == want, "lifetime", tok::reg().live.size() << " contained objects are alive instead of " << want);
            c.state(std::to_string(mx.st * 100 + mx.v) + "," + std::to_string(my.st * 100 + my.v) + "," + std::to_string(mz.st * 100 + mz.v));
        }
        c.outcome(std::to_string(mx.st) + std::to_string(my.st) + std::to_string(mz.st));
    }
    MC_CHECK(c, tok::reg().live.empty(), "lifetime", tok::reg().live.size() << " contained objects were never destroyed");
}

int main(int argc, char** argv) {
    mc_fatal_hook = throwFatal;
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"copyable", [](Ctx& c) { tok::reg().live.clear(); histories<A>(c, c.thorough() ? 4 : 3); }, false, "all histories of 3 (4) of 27 operations, copyable contents"});
    sc.push_back({"move-only", [](Ctx& c) { tok::reg().live.clear(); histories<M>(c, c.thorough() ? 4 : 3); }, false, "all histories of 3 (4) of 19 operations, move-only contents"});
    sc.push_back({"same-type", [](Ctx& c) { tok::reg().live.clear(); histories<B>(c, c.thorough() ? 4 : 3); }, false, "all histories of 3 (4) of 27 operations, contents of the same type on both sides"});
    sc.push_back({"plain", [](Ctx& c) {   // ordinary contents, with heap accounting
        long live = mc::heap_live();
        {
            StatusOr<std::string> s; StatusOr<const char*> p; StatusOr<std::vector<std::unique_ptr<int>>> v; StatusOr<bool> b; StatusOr<std::shared_ptr<int>> q;
            const std::string big(60, 'x'); std::optional<std::string> m; bool st = false;
            for (int i = 0; i < (c.thorough() ? 5 : 4); ++i) { c.step();
                switch (c.choose(8)) {
                    case 0: s = big; m = big; st = false; break;
                    case 1: s = "literal"; m = "literal"; st = false; break;
                    case 2: s = Status::Error("e"); m.reset(); st = true; break;
                    case 3: p = "chars"; s = p; m = "chars"; st = false; break;
                    case 4: if (m) { s = s.value(); s = s.value() + "!"; *m += "!"; } break;
                    case 5: { StatusOr<std::string> t(s); s = std::move(t); break; }
                    case 6: if (m) { std::string t = std::move(s).value(); MC_CHECK(c, t == *m, "plain", "taken string differs"); m.reset(); st = false; } break;
                    case 7: { std::vector<std::unique_ptr<int>> w; w.push_back(std::make_unique<int>(i)); v = std::move(w); q = std::make_shared<int>(i); b = i % 2 == 0; auto t = std::move(v).value(); MC_CHECK(c, *t[0] == i && *q.value() == i && b.value() == (i % 2 == 0), "plain", "moved content differs"); break; }
                }
                MC_CHECK(c, s.ok() == m.has_value() && (!m || s.value() == *m), "plain", "a string value-or-status holds something else");
                if (st) MC_CHECK(c, s.status().message() == "e", "plain", "the status is lost"); }
            c.state((m ? *m : "-") + (st ? "s" : "")); c.outcome(m ? "value" : st ? "status" : "void");
        }
        MC_CHECK(c, mc::heap_live() == live, "leak", mc::heap_live() - live << " heap blocks are left behind");
    }, false, "all histories of 4 (5) of 8 operations on ordinary types"});
    return mc::run(argc, argv, "C16", sc, {"contents do not throw from copies and moves"});
}
