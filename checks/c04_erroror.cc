// C04: result-or-error-code values, all histories within bounds against a reference variant.
#include "mc.h"
#include "heap.h"
#include "common/base/Logging.h"
#include "common/base/ErrorOr.h"
#include <memory>
#include <optional>
using mc::Ctx;
using nebula::ErrorOr;
using nebula::EitherOr;
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal {};
static void throwFatal(const char*, int, const char*) { throw Fatal(); }

enum class Code : int { SUCCEEDED = 0, E_ONE = -1, E_BIG = 2147483647 };
enum Plain { P_OK, P_BAD = 7 };
struct Num { int64_t v = 0; Num() = default; explicit Num(int64_t x) : v(x) {} bool operator==(const Num& o) const { return v == o.v; } };

template <class E, class R> struct Ref { int st = 0; E e{}; R r{}; };

template <class F> bool rejects(F f) { try { f(); } catch (const Fatal&) { return true; } catch (const std::exception&) { return true; } return false; }

template <class E, class R> void check(Ctx& c, ErrorOr<E, R>& x, const Ref<E, R>& m, const char* who) {
    const ErrorOr<E, R>& cx = x;
    MC_CHECK(c, nebula::ok(x) == (m.st != 1), "ok", who << ": ok() is " << nebula::ok(x) << " for state " << m.st);
    MC_CHECK(c, nebula::hasValue(x) == (m.st == 2), "hasValue", who << ": hasValue() is " << nebula::hasValue(x) << " for state " << m.st);
    MC_CHECK(c, x.isVoid() == (m.st == 0), "void", who << ": isVoid() is wrong for state " << m.st);
    if (m.st == 1) MC_CHECK(c, nebula::error(x) == m.e, "error", who << ": error() does not give the stored code");
    else MC_CHECK(c, rejects([&] { (void)nebula::error(cx); }), "error", who << ": error() returned although no error is stored");
    if (m.st == 2) {
        MC_CHECK(c, nebula::value(x) == m.r, "value", who << ": value() does not give the stored result");
        MC_CHECK(c, nebula::value(cx) == m.r, "value", who << ": value() const does not give the stored result");
        MC_CHECK(c, &nebula::value(x) == &x.right(), "value", who << ": value() is not a reference to the stored result");
    } else {
        MC_CHECK(c, rejects([&] { (void)nebula::value(x); }), "value", who << ": value() returned although no result is stored");
        MC_CHECK(c, rejects([&] { (void)nebula::value(cx); }), "value", who << ": value() const returned although no result is stored");
    }
}

template <class E, class R> ErrorOr<E, R> mkE(const E& e) {
    if constexpr (std::is_constructible<E, const E&>::value && std::is_constructible<R, const E&>::value) return ErrorOr<E, R>(nebula::kConstructLeft, e); else return e;
}
template <class E, class R> ErrorOr<E, R> mkR(const R& r) {
    if constexpr (std::is_constructible<E, const R&>::value && std::is_constructible<R, const R&>::value) return ErrorOr<E, R>(nebula::kConstructRight, r); else return r;
}
// as a function that returns early with an error or with a result
template <class E, class R> ErrorOr<E, R> compute(bool fail, E e, R r) { if (fail) return e; return r; }

template <class E, class R, class E2, class R2>
void histories(Ctx& c, int depth, const std::vector<E>& es, const std::vector<R>& rs, const E2& ce, const R2& cr, E ceAs, R crAs, const char* name) {
    typedef ErrorOr<E, R> T;
    typedef ErrorOr<E2, R2> T2;
    std::unique_ptr<T> x = std::make_unique<T>(), y = std::make_unique<T>();
    Ref<E, R> mx, my;
    MC_LOG(c, name);
    const int fixed = 17;
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(fixed + es.size() * 2 + rs.size() * 2);
        if (k >= fixed) {
            k -= fixed;
            if (k < (int)es.size()) { MC_LOG(c, "x = error " << k); E e = es[k]; *x = e; mx = {1, e, R{}}; }
            else if ((k -= es.size()) < (int)es.size()) { MC_LOG(c, "x from error " << k); x.reset(new T(mkE<E, R>(es[k]))); mx = {1, es[k], R{}}; }
            else if ((k -= es.size()) < (int)rs.size()) { MC_LOG(c, "x = result " << k); R r = rs[k]; *x = std::move(r); mx = {2, E{}, rs[k]}; }
            else { k -= rs.size(); MC_LOG(c, "x from result " << k); x.reset(new T(mkR<E, R>(rs[k]))); mx = {2, E{}, rs[k]}; }
        } else switch (k) {
            case 0: MC_LOG(c, "y = x"); *y = *x; my = mx; break;
            case 1: MC_LOG(c, "x = y"); { const T& r = *y; *x = r; } mx = my; break;
            case 2: MC_LOG(c, "y = move(x)"); *y = std::move(*x); my = mx; mx = {}; break;
            case 3: MC_LOG(c, "x = move(y)"); *x = std::move(*y); mx = my; my = {}; break;
            case 4: MC_LOG(c, "swap"); std::swap(*x, *y); std::swap(mx, my); break;
            case 5: MC_LOG(c, "x copy of y"); { const T& r = *y; x.reset(new T(r)); } mx = my; break;
            case 6: MC_LOG(c, "x from move(y)"); x.reset(new T(std::move(*y))); mx = my; my = {}; break;
            case 7: MC_LOG(c, "take value"); if (mx.st == 2) { R r = nebula::value(std::move(*x)); MC_CHECK(c, r == mx.r, "value", "value(move) gives another result"); mx = {}; } break;
            case 8: MC_LOG(c, "modify value"); if (mx.st == 2) { nebula::value(*x) = rs.back(); mx.r = rs.back(); } break;
            case 9: MC_LOG(c, "self"); { T& r = *x; *x = r; } break;
            case 10: MC_LOG(c, "converted error, copy"); { const T2 s(mkE<E2, R2>(ce)); *x = s; MC_CHECK(c, !nebula::ok(s) && nebula::error(s) == ce, "source", "a copied source changed"); } mx = {1, ceAs, R{}}; break;
            case 11: MC_LOG(c, "converted result, copy"); { const T2 s(mkR<E2, R2>(cr)); *x = s; MC_CHECK(c, nebula::ok(s) && nebula::value(s) == cr, "source", "a copied source changed"); } mx = {2, E{}, crAs}; break;
            case 12: MC_LOG(c, "converted error, construct"); { T2 s(mkE<E2, R2>(ce)); x.reset(new T(std::move(s))); } mx = {1, ceAs, R{}}; break;
            case 13: MC_LOG(c, "converted result, construct"); { T2 s(mkR<E2, R2>(cr)); x.reset(new T(std::move(s))); } mx = {2, E{}, crAs}; break;
            case 14: MC_LOG(c, "x = own content"); if (mx.st == 1) *x = x->left(); else if (mx.st == 2) *x = x->right(); break;
            case 15: MC_LOG(c, "returned error"); *y = compute<E, R>(true, es.back(), rs.back()); my = {1, es.back(), R{}}; break;
            case 16: MC_LOG(c, "returned result"); *y = compute<E, R>(false, es.back(), rs.back()); my = {2, E{}, rs.back()}; break;
        }
        c.step();
        check(c, *x, mx, "x"); check(c, *y, my, "y");
        c.state(std::string(name) + std::to_string(mx.st * 3 + my.st) + (mx.st == 1 ? std::to_string((long)mx.e) : ""));
    }
    c.outcome(std::string(name) + std::to_string(mx.st) + std::to_string(my.st));
}

int main(int argc, char** argv) {
    mc_fatal_hook = throwFatal;
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"histories", [](Ctx& c) {
        const std::string big(50, 'z');
        int d = c.thorough() ? 4 : 3;
        switch (c.choose(6)) {
            case 0: histories<int32_t, std::string, int16_t, const char*>(c, d, {0, -1, INT32_MIN}, {"", "ok", big}, (int16_t)-7, "conv", -7, "conv", "int32|string"); break;
            case 1: histories<Code, std::vector<int>, Code, std::vector<int>>(c, d, {Code::SUCCEEDED, Code::E_ONE, Code::E_BIG}, {{}, {1, 2}}, Code::E_ONE, {3}, Code::E_ONE, {3}, "enum class|vector"); break;
            case 2: histories<bool, std::string, bool, std::string>(c, d, {false, true}, {"", big}, true, "r", true, "r", "bool|string"); break;
            case 3: histories<Plain, std::shared_ptr<int>, Plain, std::shared_ptr<int>>(c, d, {P_OK, P_BAD}, {nullptr, std::make_shared<int>(5)}, P_BAD, nullptr, P_BAD, nullptr, "enum|shared_ptr"); break;
            case 4: histories<int64_t, std::string, int32_t, std::string>(c, d, {0, INT64_MAX, INT64_MIN}, {"x", big}, -5, "abc", -5, "abc", "int64|string"); break;
            case 5: histories<Code, std::string, Code, const char*>(c, d, {Code::SUCCEEDED, Code::E_BIG}, {"SUCCEEDED", ""}, Code::SUCCEEDED, "s", Code::SUCCEEDED, "s", "code|string"); break;
        }
    }, false, "6 pairs of code and result types x all sequences of 3 (4) of about 30 operations"});
    // Results that could also be taken for a code: both sides convertible, selected by tag only
    sc.push_back({"ambiguous", [](Ctx& c) {
        typedef ErrorOr<int32_t, Num> T;
        typedef ErrorOr<int16_t, uint16_t> U;
        int v = std::vector<int>{0, 1, -1, 32767}[c.choose(4)];
        bool left = c.flip();
        T t = left ? T(nebula::kConstructLeft, v) : T(nebula::kConstructRight, v);
        MC_CHECK(c, nebula::ok(t) == !left, "ok", "a tagged value is on the wrong side");
        if (left) MC_CHECK(c, nebula::error(t) == v, "error", "tagged code differs"); else MC_CHECK(c, nebula::value(t).v == v, "value", "tagged result differs");
        U u = left ? U(nebula::kConstructLeft, v) : U(nebula::kConstructRight, v);
        MC_CHECK(c, nebula::ok(u) == !left, "ok", "a tagged value is on the wrong side");
        if (left) MC_CHECK(c, nebula::error(u) == (int16_t)v, "error", "tagged code differs"); else MC_CHECK(c, nebula::value(u) == (uint16_t)v, "value", "tagged result differs");
        // assignment of an exactly typed value goes to its own side
        int16_t a = v; uint16_t b = v;
        if (c.flip()) { u = std::move(a); MC_CHECK(c, !nebula::ok(u) && nebula::error(u) == (int16_t)v, "ok", "an assigned code is on the wrong side"); }
        else { u = std::move(b); MC_CHECK(c, nebula::ok(u) && nebula::value(u) == (uint16_t)v, "ok", "an assigned result is on the wrong side"); }
        c.step(4); c.state(std::to_string(v) + (left ? "L" : "R")); c.outcome(left ? "L" : "R");
    }, false, "codes and results that convert into each other, every side, boundary values"});
    return mc::run(argc, argv, "C04", sc, {"element types do not throw from copies and moves"});
}
