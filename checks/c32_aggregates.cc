// C32: every aggregate over every short sequence of inputs, alone, distinct, and with interleaved groups.
#include "common/base/Base.h"
#include "common/base/ObjectPool.h"
#include "common/expression/AggregateExpression.h"
#include "common/expression/ConstantExpression.h"
#include "common/expression/VariableExpression.h"
#include "common/function/AggFunctionManager.h"
#include "mc.h"
#include "vals.h"
#include "valrel.h"
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr; using vals::VT;

static const char* NAMES[] = {"", "COUNT", "SUM", "AVG", "MAX", "MIN", "STD", "BIT_AND", "BIT_OR", "BIT_XOR", "COLLECT", "COLLECT_SET"};
static const int N = 12;
static bool num(const Value& v) { return v.isInt() || v.isFloat(); }
static double dbl(const Value& v) { return v.isInt() ? (double)v.getInt() : v.getFloat(); }
static bool skipped(const Value& v) { return v.isNull() || v.empty(); }
static const std::string BAD = "n3", OVER = "n4";
// the result defined over the inputs so far: its text, or a number to be met closely
struct Want { std::string text; double d = 0, scale = 1; bool close = false; };
static Want want(int k, const std::vector<Value>& in) {
    Want w; if (in.empty()) { w.text = "n0"; return w; }
    if (k == 0) { w.text = repr(in.back()); return w; }
    std::vector<Value> v; bool ill = false;
    for (auto& x : in) { if (skipped(x)) continue; if ((k == 2 || k == 3 || k == 6) && !num(x)) ill = true; if (k >= 7 && k <= 9 && !x.isInt()) ill = true; v.push_back(x); }
    auto over = [&](size_t upto) { __int128 s = 0; for (size_t i = 0; i < upto; ++i) { if (!v[i].isInt()) return false; s += v[i].getInt(); if (s > INT64_MAX || s < INT64_MIN) return true; } return false; };
    if (ill) {   // whichever comes first: an ill-typed input or an overflow
        size_t i = 0; while (k == 2 ? num(v[i]) : k == 3 || k == 6 ? num(v[i]) : v[i].isInt()) ++i; w.text = k == 2 && over(i) ? OVER : BAD; return w;
    }
    for (auto& x : v) if (num(x)) w.scale = std::max(w.scale, std::fabs(dbl(x)));
    switch (k) {
        case 1: w.text = "i" + std::to_string(v.size()); break;
        case 2: {
            bool flt = false; __int128 s = 0; double d = 0; for (auto& x : v) { if (x.isFloat()) { if (!flt) { flt = true; d = (double)(int64_t)s; } d += x.getFloat(); } else if (flt) d += (double)x.getInt(); else { s += x.getInt(); if (s > INT64_MAX || s < INT64_MIN) { w.text = OVER; return w; } } }
            w.text = flt ? vals::reprFloat(d) : "i" + std::to_string((int64_t)s); break; }
        case 3: { if (v.empty()) { w.text = "n0"; break; } long double s = 0; for (auto& x : v) s += dbl(x); w.close = true; w.d = (double)(s / v.size()); break; }
        case 4: case 5: { if (v.empty()) { w.text = "n0"; break; } const Value* best = &v[0]; for (auto& x : v) { int r = valrel::cmp(x, *best); if (k == 4 ? r > 0 : r < 0) best = &x; } w.text = repr(*best); break; }
        case 6: { if (v.empty()) { w.text = "n0"; break; } long double m = 0, q = 0; for (auto& x : v) m += dbl(x); m /= v.size(); for (auto& x : v) q += (dbl(x) - m) * (dbl(x) - m); w.close = true; w.d = (double)sqrtl(q / v.size()); break; }
        case 7: case 8: case 9: { if (v.empty()) { w.text = "n0"; break; } int64_t r = v[0].getInt(); for (size_t i = 1; i < v.size(); ++i) { int64_t x = v[i].getInt(); r = k == 7 ? r & x : k == 8 ? r | x : r ^ x; } w.text = "i" + std::to_string(r); break; }
        case 10: { List l; std::vector<std::string> t; for (auto& x : v) t.push_back(repr(x)); w.text = "[" + vals::join(t, false) + "]"; break; }
        case 11: { std::vector<Value> u; for (auto& x : v) { bool dup = false; for (auto& y : u) dup |= valrel::eq(x, y); if (!dup) u.push_back(x); } std::vector<std::string> t; for (auto& x : u) t.push_back(repr(x)); w.text = "<" + vals::join(t, true) + ">"; break; }
    }
    return w;
}
static void judge(Ctx& c, int k, const Value& got, const std::vector<Value>& in, const char* what) {
    std::vector<std::string> t; for (auto& x : in) t.push_back(repr(x)); Want w = want(k, in); std::string g = repr(got);
    bool ok = w.close ? got.isFloat() && (std::fabs(got.getFloat() - w.d) <= 1e-12 * w.scale) : g == w.text;
    MC_CHECK(c, ok, "result", what << NAMES[k] << " over [" << vals::join(t, false) << "] gives " << g << " instead of " << (w.close ? vals::reprFloat(w.d) : w.text));
}
// contexts: one variable holds the input
struct Env : ExpressionContext {
    Value v, none;
    const Value& getVar(const std::string&) const override { return v; }
    const Value& getVersionedVar(const std::string&, int64_t) const override { return v; }
    const Value& getVarProp(const std::string&, const std::string&) const override { return none; }
    Value getEdgeProp(const std::string&, const std::string&) const override { return none; }
    Value getTagProp(const std::string&, const std::string&) const override { return none; }
    Value getSrcProp(const std::string&, const std::string&) const override { return none; }
    const Value& getDstProp(const std::string&, const std::string&) const override { return none; }
    const Value& getInputProp(const std::string&) const override { return none; }
    Value getVertex() const override { return none; }
    Value getEdge() const override { return none; }
    Value getColumn(int32_t) const override { return none; }
    void setVar(const std::string&, Value) override {}
};
static const std::vector<std::string> IN = {"i1", "i2", "i-3", "e", "n0", "n3", "f0.5", "f-2.5", "b1", "'a'", "i9223372036854775807", "i-9223372036854775808", "i1", "[i1]", "{'k':i1}", "d(2020,1,1)"};
static bool orderless(int k, const std::string& t) { return (k == 4 || k == 5) && (t[0] == '{' || t[0] == '<'); }
// sums of an extreme integer and a small float differ from the exact ones by rounding only; not for the deviation
static bool extreme(const std::string& t) { return t.size() > 12 && t[0] == 'i'; }
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    auto sequence = [](Ctx& c, const std::vector<std::string>& alpha, int len) {
        int k = c.choose(N); std::string name = NAMES[k]; if (c.flip()) for (auto& ch : name) ch = tolower(ch); auto f = AggFunctionManager::get(name); MC_CHECK(c, f.ok() && AggFunctionManager::find(name).ok(), "found", "no aggregate " << name);
        AggData d; std::vector<Value> in; judge(c, k, d.result(), in, "");
        for (int i = 0; i < len; ++i) {
            const auto& t = c.pick(alpha); if (orderless(k, t) || (k == 6 && extreme(t))) throw mc::Abandon(); Value v = parse(t); MC_LOG(c, name << " takes " << t);
            f.value()(&d, v); in.push_back(v); c.step(); MC_CHECK(c, repr(v) == repr(parse(t)), "input", name << " changed its input " << t); judge(c, k, d.result(), in, "");
            c.state(name + repr(d.result()) + repr(d.cnt()) + repr(d.sum()) + repr(d.avg()) + repr(d.deviation()));
        }
        c.outcome(std::string(NAMES[k]) + repr(d.result()).substr(0, 2));
    };
    static const std::vector<std::string> SMALL = {"i1", "i2", "i7", "e", "n0", "f0.5", "'a'", "i9223372036854775807"};
    sc.push_back({"sequences", [=](Ctx& c) { sequence(c, IN, c.thorough() ? 5 : 4); }, false, "12 aggregates in two letter cases over all sequences of 4 (5) of 16 inputs, judged after every input"});
    sc.push_back({"longer", [=](Ctx& c) { sequence(c, SMALL, c.thorough() ? 7 : 5); }, false, "12 aggregates over all sequences of 5 (7) of 8 inputs, judged after every input"});
    sc.push_back({"groups", [](Ctx& c) {   // one expression serves two groups in any interleaving, distinct or not
        static const std::vector<std::string> V = {"i1", "i2", "n0", "e", "'a'", "f0.5", "{'k':i1}", "[n0]"};
        int k = c.choose(N); bool distinct = c.flip(); int len = c.thorough() ? 5 : 4; ObjectPool pool; Env env;
        auto* e = AggregateExpression::make(&pool, NAMES[k], VariableExpression::make(&pool, "x", true), distinct); Expression* copy = c.flip() ? e->clone() : Expression::decode(&pool, e->encode()); auto* e2 = static_cast<AggregateExpression*>(copy);
        AggData d[2]; std::vector<Value> in[2];
        for (int i = 0; i < len; ++i) {
            int g = c.choose(2); const auto& t = c.pick(V); if (orderless(k, t)) throw mc::Abandon(); Value v = parse(t); env.v = v; auto* x = i % 2 ? e2 : e; MC_LOG(c, "group " << g << (distinct ? " distinct " : " ") << NAMES[k] << " takes " << t);
            x->setAggData(&d[g]); Value r = x->eval(env); bool seen = false; if (distinct) for (auto& y : in[g]) seen |= valrel::eq(y, v); if (!seen) in[g].push_back(v); c.step();
            judge(c, k, r, in[g], distinct ? "distinct " : ""); for (int h = 0; h < 2; ++h) judge(c, k, d[h].result(), in[h], distinct ? "distinct " : ""); MC_CHECK(c, repr(env.v) == repr(v), "input", "the input was changed");
        }
        c.state(std::string(NAMES[k]) + repr(d[0].result()) + repr(d[1].result())); c.outcome(std::string(NAMES[k]) + repr(d[0].result()).substr(0, 2));
    }, false, "12 aggregates, distinct or not, over all interleavings of 4 (5) of 8 inputs into two groups, by an expression and its copy in turn"});
    sc.push_back({"apply", [](Ctx& c) {   // the other entry: an expression applied to given data, repeatedly
        int k = c.choose(N); ObjectPool pool; auto* e = AggregateExpression::make(&pool, NAMES[k], VariableExpression::make(&pool, "x", true), false); AggData d; std::vector<Value> in;
        for (int i = 0; i < 3; ++i) { const auto& t = c.pick(SMALL); Value v = parse(t); if (k == 6 && extreme(t)) throw mc::Abandon(); e->apply(&d, v); in.push_back(v); c.step(); judge(c, k, d.result(), in, "applied "); }
        c.state(std::string(NAMES[k]) + repr(d.result())); c.outcome(NAMES[k]);
    }, false, "12 aggregates applied to all sequences of 3 of 8 inputs"});
    sc.push_back({"names", [](Ctx& c) {
        static const char* X[] = {"", "COUN", "COUNTT", "sUm", "SUM ", "Collect_Set", "COLLECTSET", "avg", "BIT-AND", "bit_and", "std", "STDDEV", "Max", "mIN", "FIRST"}; static const bool OK[] = {1, 0, 0, 1, 0, 1, 0, 1, 0, 1, 1, 0, 1, 1, 0}; int i = c.choose(15);
        MC_CHECK(c, AggFunctionManager::get(X[i]).ok() == OK[i] && AggFunctionManager::find(X[i]).ok() == OK[i], "name", "the aggregate '" << X[i] << "' is " << (OK[i] ? "refused" : "accepted")); c.step(); c.state(X[i]); c.outcome(OK[i] ? "y" : "n");
    }, false, "15 names"});
    return mc::run(argc, argv, "C32", sc, {"Greatest and least are judged on values that have an order (no maps or sets); averages and deviations are met within 1e-12 of the largest input.", "Integers and floating-point numbers that are equal are not mixed in one distinct group."});
}
