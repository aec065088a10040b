// C03: EitherOr against a reference variant; all operation sequences within bounds, element lifetimes tracked.
#include "mc.h"
#include "heap.h"
#include "tok.h"
#include "common/base/Logging.h"
#include "common/base/EitherOr.h"
#include <memory>
#include <optional>
using namespace tok;
using mc::Ctx;
using nebula::EitherOr;
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal {};
static void throwFatal(const char*, int, const char*) { throw Fatal(); }

struct LeftOnly { int id; };
struct A : Tok<0> { using Tok<0>::Tok; A(const LeftOnly& l) : Tok<0>(l.id) {} explicit A(int x, int y) : Tok<0>(x + y) {} };
struct B : Tok<1> { using Tok<1>::Tok; B(const char* s) : Tok<1>(atoi(s)) {} };
// A and B are both constructible from int (explicitly); their conversion sources:
struct A2 : Tok<10> { using Tok<10>::Tok; };
struct B2 : Tok<11> { using Tok<11>::Tok; };
typedef EitherOr<A, B> E;
typedef EitherOr<A2, B2> E2;

struct M { int st = 0; int id = 0; bool operator==(const M& o) const { return st == o.st && (st == 0 || id == o.id); } };

template <class T> void check(Ctx& c, const T& e, const M& m, const char* who) {
    MC_CHECK(c, e.isVoid() == (m.st == 0), "state", who << ": isVoid() is " << e.isVoid() << ", expected state " << m.st);
    MC_CHECK(c, e.isLeftType() == (m.st == 1), "state", who << ": isLeftType() is " << e.isLeftType() << ", expected state " << m.st);
    MC_CHECK(c, e.isRightType() == (m.st == 2), "state", who << ": isRightType() is " << e.isRightType() << ", expected state " << m.st);
    if (m.st == 1) MC_CHECK(c, e.left().get() == m.id, "content", who << ": left() holds " << e.left().get() << ", expected " << m.id);
    if (m.st == 2) MC_CHECK(c, e.right().get() == m.id, "content", who << ": right() holds " << e.right().get() << ", expected " << m.id);
}
// Reading an alternative that is not held must be rejected, through every accessor
template <class T> void wrongReads(Ctx& c, T& e, const M& m, const char* who) {
    auto rejected = [&](auto f, const char* what) {
        bool threw = false;
        try { f(); } catch (const Fatal&) { threw = true; } catch (const std::exception&) { threw = true; }
        MC_CHECK(c, threw, "wrong-read", who << ": " << what << " returned although the state is " << m.st);
    };
    const T& ce = e;
    if (m.st != 1) { rejected([&] { e.left(); }, "left()"); rejected([&] { ce.left(); }, "left() const"); rejected([&] { auto v = std::move(e).left(); }, "left() &&"); }
    if (m.st != 2) { rejected([&] { e.right(); }, "right()"); rejected([&] { ce.right(); }, "right() const"); rejected([&] { auto v = std::move(e).right(); }, "right() &&"); }
}

template <class T> std::unique_ptr<T> make(int st, int id) {
    if (st == 0) return std::make_unique<T>();
    if (st == 1) return std::make_unique<T>(nebula::kConstructLeft, id);
    return std::make_unique<T>(nebula::kConstructRight, id);
}

struct World {
    std::unique_ptr<E> x, y; std::unique_ptr<E2> z;
    M mx, my, mz;
};
static const int kPerTarget = 33;

static bool op(Ctx& c, World& w, int k, int fresh) {
    bool onY = k >= kPerTarget;
    if (onY) k -= kPerTarget;
    std::unique_ptr<E>& t = onY ? w.y : w.x; M& mt = onY ? w.my : w.mx;
    std::unique_ptr<E>& o = onY ? w.x : w.y; M& mo = onY ? w.mx : w.my;
    const char* T = onY ? "y" : "x";
    int s = fresh;
    switch (k) {
        case 0: { MC_LOG(c, T << " = const A&"); A a(s); *t = a; MC_CHECK(c, a.get() == s, "source", "a copied value changed"); mt = {1, s}; break; }
        case 1: { MC_LOG(c, T << " = A&&"); *t = A(s); mt = {1, s}; break; }
        case 2: { MC_LOG(c, T << " = const B&"); B b(s); *t = b; MC_CHECK(c, b.get() == s, "source", "a copied value changed"); mt = {2, s}; break; }
        case 3: { MC_LOG(c, T << " = B&&"); *t = B(s); mt = {2, s}; break; }
        case 4: { MC_LOG(c, T << " = const other&"); const E& r = *o; E& q = (*t = r); MC_CHECK(c, &q == t.get(), "chain", "= does not return the target"); mt = mo; break; }
        case 5: { MC_LOG(c, T << " = other&&"); *t = std::move(*o); mt = mo; mo = {}; break; }
        case 6: { MC_LOG(c, T << " = self"); E& r = *t; *t = r; break; }
        case 7: { MC_LOG(c, T << " = move(self)"); E& r = *t; *t = std::move(r); break; }
        case 8: { MC_LOG(c, T << " = const z&"); const E2& r = *w.z; *t = r; mt = w.mz; break; }
        case 9: { MC_LOG(c, T << " = z&&"); *t = std::move(*w.z); mt = w.mz; w.mz = {}; break; }
        case 10: if (mt.st == 1) { MC_LOG(c, T << " = own left"); *t = t->left(); } else if (mt.st == 2) { MC_LOG(c, T << " = own right"); *t = t->right(); } break;
        case 11: if (mt.st == 1) { MC_LOG(c, T << " = const own left"); const A& r = t->left(); *t = r; } else if (mt.st == 2) { MC_LOG(c, T << " = const own right"); const B& r = t->right(); *t = r; } break;
        case 12: if (mt.st == 1) { MC_LOG(c, T << " = move(own left)"); *t = std::move(t->left()); } else if (mt.st == 2) { MC_LOG(c, T << " = move(own right)"); *t = std::move(t->right()); } break;
        case 13: { MC_LOG(c, T << " = convertible to left"); *t = LeftOnly{s}; mt = {1, s}; break; }
        case 14: { MC_LOG(c, T << " = convertible to right"); std::string str = std::to_string(s); *t = str.c_str(); mt = {2, s}; break; }
        case 15: if (mt.st == 1) { MC_LOG(c, "take left of " << T); A a = std::move(*t).left(); MC_CHECK(c, a.get() == mt.id, "take", "taken left value is " << a.get() << ", expected " << mt.id); mt = {}; } else if (mt.st == 2) { MC_LOG(c, "take right of " << T); B b = std::move(*t).right(); MC_CHECK(c, b.get() == mt.id, "take", "taken right value is " << b.get() << ", expected " << mt.id); mt = {}; } break;
        case 16: if (mt.st == 1) { MC_LOG(c, "modify left of " << T); t->left() = A(s); mt.id = s; } else if (mt.st == 2) { MC_LOG(c, "modify right of " << T); t->right() = B(s); mt.id = s; } break;
        case 17: { MC_LOG(c, T << ": reconstruct default"); t.reset(); t.reset(new E()); mt = {}; break; }
        case 18: { MC_LOG(c, T << ": copy-construct from other"); t.reset(); const E& r = *o; t.reset(new E(r)); mt = mo; break; }
        case 19: { MC_LOG(c, T << ": move-construct from other"); t.reset(); t.reset(new E(std::move(*o))); mt = mo; mo = {}; break; }
        case 20: { MC_LOG(c, T << ": copy-construct from z"); t.reset(); const E2& r = *w.z; t.reset(new E(r)); mt = w.mz; break; }
        case 21: { MC_LOG(c, T << ": move-construct from z"); t.reset(); t.reset(new E(std::move(*w.z))); mt = w.mz; w.mz = {}; break; }
        case 22: { MC_LOG(c, T << ": construct from const A&"); A a(s); t.reset(new E(a)); MC_CHECK(c, a.get() == s, "source", "a copied value changed"); mt = {1, s}; break; }
        case 23: { MC_LOG(c, T << ": construct from A&&"); t.reset(new E(A(s))); mt = {1, s}; break; }
        case 24: { MC_LOG(c, T << ": construct from const B&"); B b(s); t.reset(new E(b)); MC_CHECK(c, b.get() == s, "source", "a copied value changed"); mt = {2, s}; break; }
        case 25: { MC_LOG(c, T << ": construct from B&&"); t.reset(new E(B(s))); mt = {2, s}; break; }
        case 26: { MC_LOG(c, T << ": construct left by tag"); t.reset(new E(nebula::kConstructLeft, s)); mt = {1, s}; break; }
        case 27: { MC_LOG(c, T << ": construct right by tag"); t.reset(new E(nebula::kConstructRight, s)); mt = {2, s}; break; }
        case 28: { MC_LOG(c, T << ": construct from two arguments"); t.reset(new E(s, 1)); mt = {1, s + 1}; break; }
        case 29: { MC_LOG(c, "swap"); std::swap(*t, *o); std::swap(mt, mo); break; }
        case 30: { MC_LOG(c, "z = left"); *w.z = A2(s); w.mz = {1, s}; break; }
        case 31: { MC_LOG(c, "z = right"); *w.z = B2(s); w.mz = {2, s}; break; }
        case 32: { MC_LOG(c, "z reset"); w.z.reset(new E2()); w.mz = {}; break; }
    }
    c.step();
    return true;
}

static void audit(Ctx& c, World& w) {
    check(c, *w.x, w.mx, "x"); check(c, *w.y, w.my, "y"); check(c, *w.z, w.mz, "z");
    size_t want = (w.mx.st != 0) + (w.my.st != 0) + (w.mz.st != 0);
    MC_CHECK(c, reg().live.size() == want, "lifetime", reg().live.size() << " element objects are alive, " << want << " are held");
}

static void sequences(Ctx& c, int depth, bool fromAll) {
    reg().live.clear();
    {
        World w;
        if (fromAll) {
            w.mx.st = c.choose(3); w.my.st = c.choose(3); w.mz.st = c.choose(3);
            w.mx.id = 11; w.my.id = 12; w.mz.id = 13;
        }
        w.x = make<E>(w.mx.st, w.mx.id); w.y = make<E>(w.my.st, w.my.id); w.z = make<E2>(w.mz.st, w.mz.id);
        MC_LOG(c, "start x" << w.mx.st << " y" << w.my.st << " z" << w.mz.st);
        audit(c, w);
        for (int i = 0; i < depth; ++i) {
            // on y only the operations that relate it to x differ from those on x
            int k = c.choose(i == 0 ? kPerTarget : kPerTarget + 30);
            op(c, w, k, 100 + i * 10);
            audit(c, w);
            c.state(std::to_string(w.mx.st) + "." + std::to_string(w.mx.id) + "/" + std::to_string(w.my.st) + "." + std::to_string(w.my.id) + "/" + std::to_string(w.mz.st));
        }
        wrongReads(c, *w.x, w.mx, "x"); wrongReads(c, *w.y, w.my, "y");
        audit(c, w);
        c.outcome(std::to_string(w.mx.st) + std::to_string(w.my.st) + std::to_string(w.mz.st));
    }
    MC_CHECK(c, reg().live.empty(), "lifetime", reg().live.size() << " element objects were never destroyed");
}

template <class T, class L, class R> T mkLeft(const L& l) {
    if constexpr (std::is_constructible<L, const L&>::value && std::is_constructible<R, const L&>::value) return T(nebula::kConstructLeft, l); else return T(l);
}
template <class T, class L, class R> T mkRight(const R& r) {
    if constexpr (std::is_constructible<L, const R&>::value && std::is_constructible<R, const R&>::value) return T(nebula::kConstructRight, r); else return T(r);
}
// Plain types as the documentation uses them: selection of the side and value fidelity.
template <class L, class R> void plain(Ctx& c, const std::vector<L>& ls, const std::vector<R>& rs, const char* name) {
    typedef EitherOr<L, R> T;
    long before = mc::heap_live();
    {
        T t, u;
        int mt = 0, mu = 0; L lt{}, lu{}; R rt{}, ru{};
        for (int i = 0; i < 3; ++i) {
            int k = c.choose(ls.size() + rs.size() + 5);
            if (k < (int)ls.size()) { lt = ls[k]; if (c.flip()) t = mkLeft<T, L, R>(lt); else { L v = lt; t = std::move(v); } mt = 1; }
            else if (k < (int)(ls.size() + rs.size())) { rt = rs[k - ls.size()]; if (c.flip()) t = mkRight<T, L, R>(rt); else { R v = rt; t = std::move(v); } mt = 2; }
            else switch (k - ls.size() - rs.size()) {
                case 0: u = t; mu = mt; lu = lt; ru = rt; break;
                case 1: t = u; mt = mu; lt = lu; rt = ru; break;
                case 2: u = std::move(t); mu = mt; lu = lt; ru = rt; mt = 0; break;
                case 3: std::swap(t, u); std::swap(mt, mu); std::swap(lt, lu); std::swap(rt, ru); break;
                case 4: t = T(); mt = 0; break;
            }
            c.step();
            MC_CHECK(c, t.isVoid() == (mt == 0) && t.isLeftType() == (mt == 1) && t.isRightType() == (mt == 2), "state", name << ": wrong alternative");
            MC_CHECK(c, u.isVoid() == (mu == 0) && u.isLeftType() == (mu == 1) && u.isRightType() == (mu == 2), "state", name << ": wrong alternative");
            if (mt == 1) MC_CHECK(c, t.left() == lt, "content", name << ": left value differs");
            if (mt == 2) MC_CHECK(c, t.right() == rt, "content", name << ": right value differs");
            if (mu == 1) MC_CHECK(c, u.left() == lu, "content", name << ": left value differs");
            if (mu == 2) MC_CHECK(c, u.right() == ru, "content", name << ": right value differs");
            c.state(std::string(name) + std::to_string(mt * 3 + mu));
        }
        c.outcome(name);
    }
    MC_CHECK(c, mc::heap_live() == before, "leak", name << ": heap blocks left after destruction");
}

int main(int argc, char** argv) {
    mc_fatal_hook = throwFatal;
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"matrix", [](Ctx& c) { sequences(c, c.thorough() ? 3 : 2, true); }, false,
        "from every combination of states of three containers (two of one type, one of a convertible type): all sequences of 2 (3) of 63 operations"});
    sc.push_back({"sequences", [](Ctx& c) { sequences(c, c.thorough() ? 4 : 3, false); }, false,
        "from empty containers: all sequences of 3 (4) of 63 operations"});
    sc.push_back({"plain-types", [](Ctx& c) {
        const std::string big(40, 'q');
        switch (c.choose(5)) {
            case 0: plain<int, std::string>(c, {0, -1, INT32_MIN}, {"", "abc", big}, "int|string"); break;
            case 1: plain<bool, std::string>(c, {false, true}, {"", big}, "bool|string"); break;
            case 2: plain<int16_t, uint16_t>(c, {0, -1, 32767}, {0, 65535}, "int16|uint16"); break;
            case 3: plain<std::vector<int>, std::string>(c, {{}, {1, 2, 3}}, {"", big}, "vector|string"); break;
            case 4: plain<std::shared_ptr<int>, std::vector<std::string>>(c, {nullptr, std::make_shared<int>(4)}, {{}, {big, ""}}, "shared_ptr|vector"); break;
        }
    }, false, "5 pairs of plain types, boundary values, all sequences of 3 assignments/copies/moves/swaps"});
    return mc::run(argc, argv, "C03", sc, {"element types do not throw from copies and moves (the operations are noexcept)", "elements do not contain a container of the same type that is assigned to its own ancestor"});
}
