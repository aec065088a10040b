// C30: every operator over every combination of operand values, and programs of two levels, evaluated by the real code and by
// the definition; every expression is evaluated again, and in other contexts in between.
#include "mc.h"
#include "exprs.h"
using mc::Ctx; using namespace exprs;
static const std::vector<std::string> ALL = {
    "e", "n0", "n1", "n3", "n5", "n7", "b0", "b1", "i0", "i1", "i-1", "i2", "i-2", "i3", "i9223372036854775807", "i-9223372036854775808", "f0", "f1", "f-2.5", "f1e300", "''", "'a'", "'b'", "'ab'", "'aba'", "'1'", "'p'", "'_src'", "'_vid'", "'_none'", "'true'",
    "d(2020,1,31)", "d(1999,12,1)", "t(1,2,3,4)", "T(2020,1,31,1,2,3,4)", "V('a';'t'{'p':i1,'a':n0};'u'{'p':i2,'q':'z'})", "V('b')", "E('a','b',1,'e',3,{'p':i1,'a':n0})", "E('b','a',-1,'e',3,{})", "P(V('a'))", "P(V('a');(V('b'),1,'e',0,{}))",
    "[]", "[i1]", "[i1,'a',i2]", "[n0]", "[i1,n0]", "[n3,'a']", "[[i1],b1]", "[e]", "{}", "{'a':i1,'ab':n0}", "{'p':{}}", "<>", "<i1,'a'>", "<n0,i2>", "<[i1]>", "D()", "D('c';[i1];[i2])"};
static const std::vector<std::string> FEW = {"e", "n0", "n3", "b0", "b1", "i0", "i1", "i-1", "'a'", "[i1,i2]", "{'a':i1}"};
static Env context(int variant) { Env e; e.salt = variant ? "!" : ""; e.vertex = parse(variant ? "V('b';'t'{'p':i2})" : "V('a';'t'{'p':i1})"); e.edge = parse(variant ? "E('b','a',-1,'e',3,{})" : "E('a','b',1,'e',0,{})"); return e; }
// what ordinary nodes read from the context, and in what order variables are set, is part of the result
static std::vector<std::string> sets(const Env& e) { std::vector<std::string> r; for (auto& l : e.log) if (l.compare(0, 3, "set") == 0) r.push_back(l); return r; }
static void one(Ctx& c, Ex* e, const X& t, const Env& at, const char* what, bool reads = false) {
    Env a = at, b = at; Value w; try { w = eval(t, b); } catch (Undefined&) { throw mc::Abandon(); }
    Value g = e->eval(a); std::string gs = repr(g), ws = repr(w); c.step();
    if (gs != ws && g.isFloat() && w.isFloat() && std::isnan(g.getFloat()) && std::isnan(w.getFloat())) gs = ws;
    MC_CHECK(c, gs == ws, "result", what << text(t) << " in " << at.content() << "gives " << gs << " instead of " << ws);
    MC_CHECK(c, sets(a) == sets(b), "assignments", what << text(t) << " in " << at.content() << "sets [" << vals::join(sets(a), false) << "] instead of [" << vals::join(sets(b), false) << "]");
    MC_CHECK(c, a.content() == b.content(), "operands", what << text(t) << " in " << at.content() << "leaves " << a.content() << "instead of " << b.content());
    if (reads) MC_CHECK(c, a.log == b.log, "reads", what << text(t) << " in " << at.content() << "reads [" << vals::join(a.log, false) << "] instead of [" << vals::join(b.log, false) << "]");
}
// once, again, in another context, and again; and by a copy
static std::string run(Ctx& c, const X& t, const Env& at, const Env* other = nullptr, bool reads = false) {
    Pool p; Ex* e = build(&p, t); MC_LOG(c, text(t) << " in " << at.content()); std::string was = encodable(t) ? e->encode() : e->toString();
    one(c, e, t, at, "", reads); one(c, e, t, at, "again, ", reads);
    if (other) { try { one(c, e, t, *other, "in another context, ", reads); } catch (mc::Abandon&) {} one(c, e, t, at, "after another context, ", reads); }
    MC_CHECK(c, (encodable(t) ? e->encode() : e->toString()) == was, "changed", text(t) << " changes by being evaluated");
    Env a = at; std::string r = repr(Ex::eval(e, a)); c.state(text(t) + at.content()); return r;
}
static bool nan(const std::string& r) { return r.find("nan") != std::string::npos; }
// the operands as constants, or as variables
static X operand(Env& e, bool asVar, const std::string& name, const std::string& v) { if (!asVar) return cst(v); e.vars[name] = parse(v); return var(name); }
static X bin(int k, const X& a, const X& b) { return x(k, {a, b}); }
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"binary", [](Ctx& c) {
        static const std::vector<int> OPS = [] { std::vector<int> r; for (int k = ADD; k <= MOD; ++k) r.push_back(k); for (int k = EQ; k <= SUBSCRIPT; ++k) r.push_back(k); return r; }();
        int k = c.pick(OPS); const std::string &a = c.pick(ALL), &b = c.pick(ALL); Env e = context(0), f = context(1); bool v = c.flip(); X t = bin(k, operand(e, v, "x", a), operand(e, v, "y", b)); f.vars = {{"x", Value("other")}, {"y", Value("o")}};
        std::string r = run(c, t, e, v ? &f : nullptr); c.outcome(std::string(KNAME[k]) + r.substr(0, 2));
    }, false, "21 binary operators on all pairs of 58 values, constant or variable"});
    sc.push_back({"attributes", [](Ctx& c) {
        static const std::vector<std::string> N = {"'a'", "'p'", "'q'", "'z'", "'ab'", "''", "'_src'", "'_dst'", "'_rank'", "'_type'", "'_vid'", "'_none'", "'year'", "'Month'", "'DAY'", "'hour'", "'minute'", "'second'", "'microsecond'", "'week'"};
        const std::string &a = c.pick(ALL), &n = c.pick(N); const std::string& prev = c.pick(ALL); Env e = context(0), f = context(1); X t = bin(ATTR, operand(e, true, "x", a), c.flip() ? cst(n) : x(LABEL, {}, {parse(n).getStr()})); f.vars["x"] = parse(prev);
        Pool p; Ex* ex = build(&p, t); try { one(c, ex, t, f, "", true); } catch (mc::Abandon&) {} one(c, ex, t, e, "after another context, ", true); one(c, ex, t, e, "again, ", true); c.state(a + n); Env g = e; c.outcome(repr(ex->eval(g)).substr(0, 2));
    }, false, "20 attribute names of 58 values, after the same expression met each of 58 values"});
    sc.push_back({"unary", [](Ctx& c) {
        static const std::vector<int> OPS = {PLUS, NEG, NOT, INCR, DECR, ISNULL, ISNOTNULL, ISEMPTY, ISNOTEMPTY}; int k = c.pick(OPS); const std::string& a = c.pick(ALL); Env e = context(0), f = context(1); f.vars["x"] = Value("other"); int how = c.choose(k == INCR || k == DECR ? 4 : 2);
        X o = how == 3 ? x(VVAR, {cst("i1")}, {"x"}) : how == 2 ? x(VVAR, {none()}, {"x"}) : operand(e, how == 1, "x", a); if (how > 1) e.vars["x"] = parse(a);
        std::string r = run(c, x(k, {o}), e, how ? &f : nullptr, true); c.outcome(std::string(KNAME[k]) + r.substr(0, 2));
    }, false, "9 unary operators on 58 values, constant, variable or versioned variable"});
    sc.push_back({"casts", [](Ctx& c) {
        static const std::vector<std::string> T = {"'0'", "'-1'", "'1.5'", "'1e3'", "'0x10'", "' 1'", "'1 '", "'9223372036854775808'", "'TRUE'", "'False'", "'f'", "f-0.5", "f9.2e18", "f1e19", "f-1e19", "f0.1"};
        int n = c.choose((int)ALL.size() + (int)T.size()); const std::string& a = n < (int)ALL.size() ? ALL[n] : T[n - ALL.size()]; int b = c.choose(16); Env e = context(0); X t = x(CAST, {operand(e, c.flip(), "x", a)}, {}, {(long)(b == 15 ? 1ull << 63 : 1ull << b)});
        std::string r = run(c, t, e); VT from = parse(a).type(), to = (VT)t.n[0]; bool g = TypeCastingExpression::validateTypeCast(from, to);
        // allowed casts: to int and float from int, float, text and empty; to text from all but times; to bool from the simple types
        uint64_t fb = (uint64_t)from; bool w = to == VT::INT || to == VT::FLOAT ? (fb & (1 | 4 | 8 | 16)) : to == VT::STRING ? from != VT::TIME : to == VT::BOOL ? (fb & (1 | 2 | 4 | 8 | 16 | 32)) || from == VT::NULLVALUE : false;
        MC_CHECK(c, g == w, "castable", "casting type " << fb << " to " << t.n[0] << " is " << (g ? "" : "not ") << "allowed"); c.outcome(std::to_string(b) + r.substr(0, 1));
    }, false, "74 values cast to 16 types"});
    sc.push_back({"logical", [](Ctx& c) {      // with the operands looked at
        static const std::vector<std::string> V = {"b0", "b1", "n0", "n3", "n5", "e", "i1", "'a'"}; static const int N = 3; int k = AND + c.choose(3), len = 2 + c.choose(c.thorough() ? N + 1 : N); Env e = context(0), f = context(0); std::vector<X> o; std::string in;
        for (int i = 0; i < len; ++i) { const std::string& v = c.pick(V); std::string n(1, 'p' + i); o.push_back(operand(e, true, n, v)); f.vars[n] = Value(i % 2 == 0); }
        std::string r = run(c, x(k, o), e, &f, true); c.outcome(std::string(KNAME[k]) + r.substr(0, 2));
    }, false, "three logical operators over all lists of 2 to 4 (5) of 8 operand values, with the operands evaluated"});
    sc.push_back({"ranges", [](Ctx& c) {
        static const std::vector<std::string> L = {"[]", "[i1]", "[i1,'b']", "[i1,'b',n0,[i2]]", "n0", "e", "{}", "'abc'", "<i1>"}, B = {"~", "i0", "i1", "i2", "i3", "i4", "i5", "i-1", "i-2", "i-3", "i-4", "i-5", "i9223372036854775807", "i-9223372036854775808", "i4294967296", "i-4294967297", "n0", "n3", "e", "f1", "'1'", "b1"};
        const std::string& l = c.pick(L); const std::string &lo = c.pick(B), &hi = c.pick(B); if (lo == "~" && hi == "~") throw mc::Abandon(); Env e = context(0), f = context(0); bool v = c.flip(); f.vars = {{"l", parse("['x','y','z']")}, {"a", Value(0)}, {"b", Value(2)}};
        X t = x(RANGE, {operand(e, v, "l", l), lo == "~" ? none() : operand(e, v, "a", lo), hi == "~" ? none() : operand(e, v, "b", hi)}); std::string r = run(c, t, e, v ? &f : nullptr); c.outcome(r);
    }, false, "lists of 0 to 4 items and other values, with all pairs of 22 bounds"});
    sc.push_back({"cases", [](Ctx& c) {
        int n = 1 + c.choose(3); bool cond = c.flip(), def = c.flip(); Env e = context(0), f = context(0); std::vector<X> k = {none(), none()};
        if (cond) { k[0] = operand(e, true, "c", c.pick(FEW)); f.vars["c"] = Value(1); } if (def) { k[1] = cst("'default'"); }
        static const std::vector<std::string> W = {"b1", "b0", "n0", "n3", "e", "i1", "f1", "'a'"};
        for (int i = 0; i < n; ++i) { std::string nm = "w" + std::to_string(i); k.push_back(operand(e, true, nm, c.pick(W))); f.vars[nm] = Value(i == 1); nm = "t" + std::to_string(i); k.push_back(operand(e, true, nm, "'t" + std::to_string(i) + "'")); f.vars[nm] = Value(i); }
        X t = x(CASE, k, {}, {1}); run(c, t, e, &f); if (n == 1 && !cond && def) { t.n = {0}; run(c, t, e, &f); } Env g = e; c.outcome(repr(eval(t, g)));
    }, false, "cases of 1 to 3 branches with every kind of condition, with and without default"});
    sc.push_back({"iterations", [](Ctx& c) {
        static const std::vector<std::string> I = {"i1", "i2", "b1", "b0", "n0", "n3", "e", "'a'"}, NOLIST = {"n0", "n3", "e", "i1", "{'a':i1}", "<i1>", "'abc'"};
        static const std::vector<X> F = {cst("b1"), cst("b0"), cst("n0"), cst("n3"), cst("e"), cst("i1"), var("i"), bin(EQ, var("i"), cst("i1")), bin(GT, var("i"), cst("i1")), x(ISNULL, {var("i")}), bin(IN, var("i"), var("l"))}, M = {var("i"), cst("'m'"), bin(ADD, var("i"), cst("i1")), x(LIST, {var("i"), var("o")})};
        int len = c.choose(4); Env e = context(0), f = context(1); X coll; f.vars["l"] = parse("[i1,i1,b1]"); f.vars["o"] = Value(9); e.vars["o"] = Value(7);
        if (len == 3 && c.flip()) e.vars["l"] = parse(c.pick(NOLIST)); else { List l; for (int i = 0; i < len; ++i) l.values.push_back(parse(c.pick(I))); e.vars["l"] = Value(l); }
        int what = c.choose(6); X t;
        if (what < 4) { static const char* N[] = {"all", "any", "single", "none"}; t = x(PRED, {var("l"), c.pick(F)}, {N[what], "i", ""}); }
        else if (what == 4) { int fi = c.choose((int)F.size() + 1), mi = c.choose((int)M.size() + 1); t = x(COMPR, {var("l"), fi == (int)F.size() ? none() : F[fi], mi == (int)M.size() ? none() : M[mi]}, {"i", ""}); }
        else { static const std::vector<X> R = {bin(ADD, var("acc"), var("i")), var("i"), var("acc"), x(LIST, {var("acc"), var("i")}), bin(MINUS, var("i"), var("acc")), cst("i1")}, INIT = {cst("i0"), cst("'s'"), cst("n0"), cst("e"), cst("[]"), var("o")}; t = x(REDUCE, {c.pick(INIT), var("l"), c.pick(R)}, {"acc", "i", ""}); }
        std::string r = run(c, t, e, &f); c.outcome(std::to_string(what) + r.substr(0, 3));
    }, false, "predicates, comprehensions and reductions over all lists of up to 3 of 8 items and other values, with 11 filters, 4 mappings and 6 steps"});
    sc.push_back({"nested iterations", [](Ctx& c) {    // one inside another, over a list that is itself the item or fixed
        static const std::vector<std::string> L = {"[]", "[[]]", "[[i1],[]]", "[[i1,i2],[i3]]", "[[i2],i1]", "[n0,[i1]]", "[[e],[n3,i1]]"}; Env e = context(0), f = context(1); e.vars["l"] = parse(c.pick(L)); f.vars["l"] = parse("[[i5,i1],[i1]]"); f.vars["m"] = parse("[i1]"); e.vars["m"] = parse("[i1,i2]");
        auto make = [&](int w, const X& coll, const std::string& v, const X& body) { static const char* N[] = {"all", "any", "single", "none"}; if (w < 4) return x(PRED, {coll, body}, {N[w], v, ""}); if (w == 4) return x(COMPR, {coll, body, var(v)}, {v, ""}); if (w == 5) return x(COMPR, {coll, none(), body}, {v, ""}); return x(REDUCE, {cst("i0"), coll, w == 6 ? bin(ADD, var("a" + v), body) : x(LIST, {var("a" + v), body})}, {"a" + v, v, ""}); };
        int outer = c.choose(8), in = c.choose(8); X body = c.flip() ? bin(EQ, var("j"), cst("i1")) : bin(ADD, var("j"), c.flip() ? var("i") : cst("i1")); X t = make(outer, var("l"), "i", make(in, c.flip() ? var("i") : var("m"), "j", body));
        std::string r = run(c, t, e, &f); c.outcome(std::to_string(outer) + r.substr(0, 2));
    }, false, "eight kinds of iteration inside eight kinds of iteration over seven lists of lists"});
    sc.push_back({"exists", [](Ctx& c) {
        static const std::vector<std::string> N = {"'a'", "'p'", "'q'", "'ab'", "'z'", "'_src'", "i1", "n0", "e"}; const std::string& a = c.pick(ALL); const std::string& n = c.pick(N); Env e = context(0), f = context(0); f.vars["x"] = parse("{'a':i1}"); bool sub = c.flip(); if (!sub && n[0] != '\'') throw mc::Abandon();
        std::string r = run(c, x(PRED, {bin(sub ? SUBSCRIPT : ATTR, operand(e, true, "x", a), cst(n)), none()}, {c.flip() ? "exists" : "everything", "", ""}), e, &f); c.outcome(r);
    }, false, "existence of 9 keys in 58 values"});
    sc.push_back({"paths", [](Ctx& c) {
        static const std::vector<std::string> I = {"'a'", "'b'", "V('a')", "V('b';'t'{'p':i1})", "E('a','b',1,'e',3,{'w':i1})", "E('b','a',2,'f',0,{})", "E('b','a',-1,'e',3,{})", "P(V('a'))", "P(V('a');(V('b'),1,'e',0,{}))", "P(V('b');(V('a'),1,'g',0,{});(V('b';'u'{}),1,'h',0,{}))", "n0", "[]"};
        int len = c.choose(c.thorough() ? 6 : 5); Env e = context(0), f = context(0); std::vector<X> o; for (int i = 0; i < len; ++i) { const std::string& v = c.pick(I); std::string n(1, 'p' + i); o.push_back(operand(e, true, n, v)); f.vars[n] = parse(i % 2 ? "E('a','a',1,'e',0,{})" : "V('a')"); }
        if (!len) { Pool p; Ex* x0 = PathBuildExpression::make(&p); Env g = e; MC_CHECK(c, repr(x0->eval(g)) == "n0", "result", "a path of nothing is " << repr(x0->eval(g))); c.step(); c.state("none"); c.outcome("n0"); return; }
        std::string r = run(c, x(PATH, o), e, &f); c.outcome(r.substr(0, 2));
    }, false, "paths built of all sequences of up to 4 (5) of 12 vertices, edges, paths and other values"});
    sc.push_back({"containers", [](Ctx& c) {
        int k = c.choose(3), len = 1 + c.choose(3); Env e = context(0), f = context(0); std::vector<X> o; std::vector<std::string> names;
        static const std::vector<std::string> V = {"e", "n0", "n3", "b1", "i1", "i2", "'a'", "''", "[i1]", "<i1>", "{'a':i1}", "V('a')", "d(2020,1,1)"};
        for (int i = 0; i < len; ++i) { std::string n(1, 'p' + i); o.push_back(operand(e, true, n, c.pick(V))); names.push_back(i == 1 ? "" : n); f.vars[n] = Value(i); }
        std::string r = run(c, k == 0 ? x(LIST, o) : k == 1 ? x(SET, o) : x(MAP, o, names), e, &f, true); c.outcome(r.substr(0, 2));
    }, false, "lists, sets and maps of up to three of 13 values"});
    sc.push_back({"context", [](Ctx& c) {      // what is read from the context, and nothing else
        static const std::vector<X> R = [] { std::vector<X> r; for (auto& n : {std::make_pair("t", "p"), std::make_pair("p", "t"), std::make_pair("", ""), std::make_pair("*", "_src")}) { for (int k : {TAGPROP, EDGEPROP, VARPROP, DSTPROP, SRCPROP}) r.push_back(x(k, {}, {n.first, n.second})); r.push_back(x(INPUTPROP, {}, {n.first})); for (int k : {ESRC, ETYPE, ERANK, EDST}) r.push_back(x(k, {}, {n.first})); r.push_back(var(n.first)); r.push_back(x(LABEL, {}, {n.first})); for (auto& v : {cst("i0"), cst("i-1"), cst("i7"), cst("'x'"), cst("n0"), none()}) r.push_back(x(VVAR, {v}, {n.first})); } r.push_back(x(VERTEX)); r.push_back(x(EDGE)); r.push_back(x(UUID, {}, {"id"})); for (long n : {0L, 1L, -1L, 2147483647L}) r.push_back(x(COLUMN, {}, {}, {n})); return r; }();
        int i = c.choose((int)R.size()), j = c.choose((int)R.size()); Env e = context(0), f = context(1); e.vars["t"] = Value("tv"); f.vars["p"] = Value(4); X t = i == j ? R[i] : x(LIST, {R[i], R[j]}); std::string r = run(c, t, e, &f, true); c.outcome(std::string(KNAME[R[i].k]));
    }, false, "all pairs of 75 reads from the context, in two contexts in turn"});
    sc.push_back({"functions", [](Ctx& c) {
        static const std::vector<std::pair<std::string, int>> F = {{"abs", 1}, {"ABS", 1}, {"length", 1}, {"toString", 1}, {"substring", 3}, {"substr", 3}, {"left", 2}, {"head", 1}, {"last", 1}, {"tail", 1}, {"range", 2}, {"range", 3}, {"coalesce", 1}, {"coalesce", 3}, {"hash", 1}, {"size", 1}, {"keys", 1}, {"concat", 2}, {"reverse", 1}, {"split", 2}, {"toInteger", 1}, {"pow", 2}, {"replace", 3}, {"labels", 1}, {"src", 1}, {"dst", 1}, {"rank", 1}, {"type", 1}, {"id", 1}, {"nodes", 1}, {"relationships", 1}};
        auto& fn = c.pick(F); if (!FunctionManager::get(fn.first, fn.second).ok()) throw mc::Abandon(); Env e = context(0), f = context(0); std::vector<X> a;
        for (int i = 0; i < fn.second; ++i) { std::string n(1, 'p' + i); a.push_back(operand(e, true, n, i ? c.pick(FEW) : c.pick(ALL))); f.vars[n] = Value(1); }
        for (auto& v : e.vars) if (fn.first == "range" && v.second.isInt() && std::abs((double)v.second.getInt()) > 1000) throw mc::Abandon();
        std::string r = run(c, x(CALL, a, {fn.first}), e, &f, true); if (nan(r)) throw mc::Abandon(); c.outcome(fn.first + r.substr(0, 1));
    }, false, "31 function calls on all combinations of argument values, through the expression"});
    sc.push_back({"programs", [](Ctx& c) {     // two levels: every kind in every place of every kind
        static const std::vector<X> KIDS = [] { std::vector<X> r; X v = var("x"), w = var("y"), l = var("l"), m = var("m");
            for (int k = ADD; k <= MOD; ++k) r.push_back(bin(k, v, w)); for (int k : {PLUS, NEG, NOT, INCR, ISNULL, ISNOTEMPTY}) r.push_back(x(k, {v})); for (int k = EQ; k <= GE; ++k) r.push_back(bin(k, v, w)); for (int k : {IN, NOTIN}) r.push_back(bin(k, v, l)); for (int k : {CONTAINS, STARTS, ENDS}) r.push_back(bin(k, v, w));
            r.push_back(bin(SUBSCRIPT, l, v)); r.push_back(bin(ATTR, m, cst("'a'"))); for (int k = AND; k <= XOR; ++k) r.push_back(bin(k, v, w)); r.push_back(x(CAST, {v}, {}, {16})); r.push_back(x(CAST, {v}, {}, {2})); r.push_back(x(CALL, {v}, {"abs"})); r.push_back(x(VERTEX)); r.push_back(x(EDGE)); r.push_back(x(EDGEPROP, {}, {"e", "p"})); r.push_back(x(DSTPROP, {}, {"t", "p"})); r.push_back(v); r.push_back(l); r.push_back(m); r.push_back(cst("i1")); r.push_back(cst("n0"));
            r.push_back(x(LIST, {v, w})); r.push_back(x(SET, {v})); r.push_back(x(MAP, {v}, {"a"})); r.push_back(x(CASE, {v, w, cst("i1"), l}, {}, {1})); r.push_back(x(PRED, {l, bin(EQ, var("i"), v)}, {"any", "i", ""})); r.push_back(x(COMPR, {l, none(), bin(ADD, var("i"), v)}, {"i", ""})); r.push_back(x(REDUCE, {v, l, bin(ADD, var("acc"), var("i"))}, {"acc", "i", ""})); r.push_back(x(RANGE, {l, v, none()})); r.push_back(x(PATH, {x(VERTEX), x(EDGE)})); return r; }();
        static const std::vector<std::pair<std::string, std::string>> XY = {{"i1", "i2"}, {"'a'", "'ab'"}, {"b1", "b0"}, {"n0", "i1"}, {"e", "n3"}, {"i-1", "f0.5"}};
        // the outer kinds take one operand expression in each place in turn
        static const std::vector<std::pair<X, int>> HOSTS = [] { std::vector<std::pair<X, int>> r; X v = var("x"), w = var("y"), l = var("l"); for (auto& h : KIDS) for (size_t i = 0; i < h.kids.size(); ++i) if (h.kids[i].k != NONE && !(h.k == ATTR && i == 1)) r.push_back({h, (int)i}); return r; }();
        int hi = c.choose((int)HOSTS.size()); auto& h = HOSTS[hi]; X t = h.first; t.kids[h.second] = c.pick(KIDS); auto& xy = c.pick(XY); auto& zz = XY[(hi + 1) % XY.size()];
        if (text(t).find("++") != std::string::npos && t.kids.size() > 1 && t.k != CASE && t.k != REDUCE) throw mc::Abandon();   // the order of effects among operands is not defined
        Env e = context(0), f = context(1); e.vars = {{"x", parse(xy.first)}, {"y", parse(xy.second)}, {"l", parse("[i1,i-1,'a']")}, {"m", parse("{'a':i1}")}}; f.vars = {{"x", parse(zz.second)}, {"y", parse(zz.first)}, {"l", parse("[b1]")}, {"m", parse("{}")}};
        std::string r = run(c, t, e, &f); if (nan(r)) throw mc::Abandon(); c.outcome(std::string(KNAME[t.k]) + r.substr(0, 1));
    }, false, "two levels: every kind in every operand place of every kind, with six pairs of values, in two contexts in turn"});
    sc.push_back({"histories", [](Ctx& c) {    // one expression, a history of contexts
        static const std::vector<X> E = [] { std::vector<X> r; X v = var("x"), w = var("y"); for (int k = ADD; k <= SUBSCRIPT; ++k) if (binary(k)) r.push_back(bin(k, v, w)); for (int k = AND; k <= XOR; ++k) r.push_back(x(k, {v, w, v})); for (int k : {PLUS, NEG, NOT, INCR, ISNULL, ISEMPTY}) r.push_back(x(k, {v})); for (const char* a : {"a", "_src", "_none", "_vid", "year"}) r.push_back(bin(ATTR, v, cst(std::string("'") + a + "'")));
            r.push_back(x(CAST, {v}, {}, {4})); r.push_back(x(CAST, {v}, {}, {32})); r.push_back(x(RANGE, {v, w, none()})); r.push_back(x(RANGE, {v, none(), w})); r.push_back(x(CASE, {v, none(), w, cst("'yes'")}, {}, {1})); r.push_back(x(CASE, {none(), none(), v, w}, {}, {1})); for (const char* n : {"all", "any", "single", "none"}) r.push_back(x(PRED, {v, bin(EQ, var("i"), w)}, {n, "i", ""})); r.push_back(x(PRED, {bin(SUBSCRIPT, v, w), none()}, {"exists", "", ""})); r.push_back(x(COMPR, {v, bin(EQ, var("i"), w), none()}, {"i", ""})); r.push_back(x(COMPR, {v, w, var("i")}, {"i", ""})); r.push_back(x(REDUCE, {w, v, bin(ADD, var("acc"), var("i"))}, {"acc", "i", ""})); r.push_back(x(LIST, {v, w})); r.push_back(x(SET, {v, w})); r.push_back(x(MAP, {v, w}, {"a", "b"})); r.push_back(x(PATH, {v, w})); r.push_back(x(CALL, {v}, {"abs"})); r.push_back(x(CALL, {v}, {"head"})); return r; }();
        static const std::vector<std::pair<std::string, std::string>> S = {{"i1", "i1"}, {"b1", "e"}, {"n0", "b0"}, {"n3", "n0"}, {"'ab'", "'a'"}, {"[i1,i2]", "i1"}, {"[i1,n0]", "'a'"}, {"{'a':i1}", "'a'"}, {"E('a','b',1,'e',0,{'a':i1})", "'_src'"}, {"V('a';'t'{'a':i1})", "E('a','b',1,'e',0,{})"}, {"i5", "[i5]"}};
        const X& t = c.pick(E); Pool p; Ex* e = build(&p, t); std::string path; int n = c.thorough() ? 4 : 3;
        for (int i = 0; i < n; ++i) { auto& s = c.pick(S); Env at = context(i % 2); at.vars = {{"x", parse(s.first)}, {"y", parse(s.second)}}; MC_LOG(c, text(t) << " in " << at.content()); try { one(c, e, t, at, i ? "after other contexts, " : ""); } catch (mc::Abandon&) {} Env g = at; path += repr(e->eval(g)) + "|"; }
        c.state(text(t) + path); c.outcome(KNAME[t.k]);
    }, false, "60 expressions over all histories of 3 (4) of 11 contexts"});
    return mc::run(argc, argv, "C30", sc, {"operators on values and conversions are those C25 establishes, functions those of C31, aggregates C32", "inner variables have names of their own, as the parser arranges", "the order of side effects among operands of one operator is not judged", "the first edge of a built path is not checked against its start, nor a plain id against the path so far"});
}
