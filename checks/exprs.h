// Expressions as trees of the checks' own: built into real expressions through the public makers, printed, compared and
// evaluated here by an independent definition, and read back from real expressions through the public accessors.
#pragma once
#include "common/base/Base.h"
#include "common/base/ObjectPool.h"
#include "common/expression/AggregateExpression.h"
#include "common/expression/ArithmeticExpression.h"
#include "common/expression/AttributeExpression.h"
#include "common/expression/CaseExpression.h"
#include "common/expression/ColumnExpression.h"
#include "common/expression/ConstantExpression.h"
#include "common/expression/ContainerExpression.h"
#include "common/expression/EdgeExpression.h"
#include "common/expression/FunctionCallExpression.h"
#include "common/expression/LabelAttributeExpression.h"
#include "common/expression/LabelExpression.h"
#include "common/expression/ListComprehensionExpression.h"
#include "common/expression/LogicalExpression.h"
#include "common/expression/PathBuildExpression.h"
#include "common/expression/PredicateExpression.h"
#include "common/expression/PropertyExpression.h"
#include "common/expression/ReduceExpression.h"
#include "common/expression/RelationalExpression.h"
#include "common/expression/SubscriptExpression.h"
#include "common/expression/TextSearchExpression.h"
#include "common/expression/TypeCastingExpression.h"
#include "common/expression/UUIDExpression.h"
#include "common/expression/UnaryExpression.h"
#include "common/expression/VariableExpression.h"
#include "common/expression/VertexExpression.h"
#include "valrel.h"
#include <functional>
#include <map>
namespace exprs {
using namespace nebula; using vals::parse; using vals::repr; using vals::VT;
typedef Expression Ex; typedef ObjectPool Pool;
// the stored numbers of the kinds, which never change
enum K { CONST, ADD, MINUS, MUL, DIV, MOD, PLUS, NEG, NOT, INCR, DECR, EQ, NE, LT, LE, GT, GE, REG, IN, NOTIN, CONTAINS, NOTCONTAINS, STARTS, NOTSTARTS, ENDS, NOTENDS, SUBSCRIPT, ATTR, LABELATTR, COLUMN,
         AND, OR, XOR, CAST, CALL, TAGPROP, EDGEPROP, INPUTPROP, VARPROP, DSTPROP, SRCPROP, ESRC, ETYPE, ERANK, EDST, VERTEX, EDGE, UUID, VAR, VVAR, LIST, SET, MAP, LABEL, CASE, PRED, COMPR, REDUCE, PATH,
         TSPREFIX, TSWILD, TSREG, TSFUZZY, AGG, ISNULL, ISNOTNULL, ISEMPTY, ISNOTEMPTY, RANGE, NONE = -1 };
static const char* const KNAME[] = {"const", "+", "-", "*", "/", "%", "u+", "u-", "!", "++", "--", "==", "!=", "<", "<=", ">", ">=", "=~", "IN", "NOT IN", "CONTAINS", "NOT CONTAINS", "STARTS", "NOT STARTS", "ENDS", "NOT ENDS", "[]", ".", "label.", "column",
    "AND", "OR", "XOR", "cast", "call", "tagprop", "edgeprop", "inputprop", "varprop", "dstprop", "srcprop", "esrc", "etype", "erank", "edst", "vertex", "edge", "uuid", "var", "vvar", "list", "set", "map", "label", "case", "pred", "compr", "reduce", "path",
    "prefix", "wildcard", "regexp", "fuzzy", "agg", "isnull", "isnotnull", "isempty", "isnotempty", "range"};
struct X { int k = NONE; std::vector<std::string> s; std::vector<long> n; std::vector<X> kids; };
inline X x(int k, std::vector<X> kids = {}, std::vector<std::string> s = {}, std::vector<long> n = {}) { X r; r.k = k; r.kids = std::move(kids); r.s = std::move(s); r.n = std::move(n); return r; }
inline X cst(const std::string& v) { return x(CONST, {}, {v}); }
inline X var(const std::string& v) { return x(VAR, {}, {v}); }
inline const X none() { return X(); }
inline bool is(int k, int a, int b) { return k >= a && k <= b; }
inline bool binary(int k) { return is(k, ADD, MOD) || is(k, EQ, ATTR); }
inline bool unary(int k) { return is(k, PLUS, DECR) || is(k, ISNULL, ISNOTEMPTY); }
inline std::string text(const X& e) {    // for messages
    if (e.k == NONE) return "~"; if (e.k == CONST) return e.s[0]; if (e.k == VAR) return "$" + e.s[0];
    std::string r = std::string("(") + KNAME[e.k]; for (auto& t : e.s) r += " '" + t + "'"; for (auto v : e.n) r += " #" + std::to_string(v); for (auto& t : e.kids) r += " " + text(t); return r + ")";
}
// ---- the real thing ----
inline Ex* build(Pool* p, const X& e) {
    std::vector<Ex*> c; for (auto& t : e.kids) c.push_back(t.k == NONE ? nullptr : build(p, t));
    auto S = [&](int i) { return e.s[i]; };
    auto list = [&]() { auto l = ExpressionList::make(p); for (auto t : c) l->add(t); return l; };
    switch (e.k) {
        case CONST: return ConstantExpression::make(p, parse(S(0)));
        case ADD: return ArithmeticExpression::makeAdd(p, c[0], c[1]); case MINUS: return ArithmeticExpression::makeMinus(p, c[0], c[1]); case MUL: return ArithmeticExpression::makeMultiply(p, c[0], c[1]);
        case DIV: return ArithmeticExpression::makeDivision(p, c[0], c[1]); case MOD: return ArithmeticExpression::makeMod(p, c[0], c[1]);
        case PLUS: return UnaryExpression::makePlus(p, c[0]); case NEG: return UnaryExpression::makeNegate(p, c[0]); case NOT: return UnaryExpression::makeNot(p, c[0]); case INCR: return UnaryExpression::makeIncr(p, c[0]); case DECR: return UnaryExpression::makeDecr(p, c[0]);
        case ISNULL: return UnaryExpression::makeIsNull(p, c[0]); case ISNOTNULL: return UnaryExpression::makeIsNotNull(p, c[0]); case ISEMPTY: return UnaryExpression::makeIsEmpty(p, c[0]); case ISNOTEMPTY: return UnaryExpression::makeIsNotEmpty(p, c[0]);
        case EQ: return RelationalExpression::makeEQ(p, c[0], c[1]); case NE: return RelationalExpression::makeNE(p, c[0], c[1]); case LT: return RelationalExpression::makeLT(p, c[0], c[1]); case LE: return RelationalExpression::makeLE(p, c[0], c[1]);
        case GT: return RelationalExpression::makeGT(p, c[0], c[1]); case GE: return RelationalExpression::makeGE(p, c[0], c[1]); case REG: return RelationalExpression::makeREG(p, c[0], c[1]); case IN: return RelationalExpression::makeIn(p, c[0], c[1]);
        case NOTIN: return RelationalExpression::makeNotIn(p, c[0], c[1]); case CONTAINS: return RelationalExpression::makeContains(p, c[0], c[1]); case NOTCONTAINS: return RelationalExpression::makeNotContains(p, c[0], c[1]);
        case STARTS: return RelationalExpression::makeStartsWith(p, c[0], c[1]); case NOTSTARTS: return RelationalExpression::makeNotStartsWith(p, c[0], c[1]); case ENDS: return RelationalExpression::makeEndsWith(p, c[0], c[1]); case NOTENDS: return RelationalExpression::makeNotEndsWith(p, c[0], c[1]);
        case SUBSCRIPT: return SubscriptExpression::make(p, c[0], c[1]); case ATTR: return AttributeExpression::make(p, c[0], c[1]);
        case LABELATTR: return LabelAttributeExpression::make(p, LabelExpression::make(p, S(0)), ConstantExpression::make(p, parse(S(1)))); case COLUMN: return ColumnExpression::make(p, (int32_t)e.n[0]);
        case AND: case OR: case XOR: { auto r = e.k == AND ? LogicalExpression::makeAnd(p, c[0], c[1]) : e.k == OR ? LogicalExpression::makeOr(p, c[0], c[1]) : LogicalExpression::makeXor(p, c[0], c[1]); for (size_t i = 2; i < c.size(); ++i) r->addOperand(c[i]); return r; }
        case CAST: return TypeCastingExpression::make(p, (VT)e.n[0], c[0]);
        case CALL: { auto a = ArgumentList::make(p); for (auto t : c) a->addArgument(t); return FunctionCallExpression::make(p, S(0), a); }
        case TAGPROP: return TagPropertyExpression::make(p, S(0), S(1)); case EDGEPROP: return EdgePropertyExpression::make(p, S(0), S(1)); case INPUTPROP: return InputPropertyExpression::make(p, S(0)); case VARPROP: return VariablePropertyExpression::make(p, S(0), S(1));
        case DSTPROP: return DestPropertyExpression::make(p, S(0), S(1)); case SRCPROP: return SourcePropertyExpression::make(p, S(0), S(1));
        case ESRC: return EdgeSrcIdExpression::make(p, S(0)); case ETYPE: return EdgeTypeExpression::make(p, S(0)); case ERANK: return EdgeRankExpression::make(p, S(0)); case EDST: return EdgeDstIdExpression::make(p, S(0));
        case VERTEX: return VertexExpression::make(p); case EDGE: return EdgeExpression::make(p); case UUID: return UUIDExpression::make(p, S(0));
        case VAR: return VariableExpression::make(p, S(0), true); case VVAR: return VersionedVariableExpression::make(p, S(0), c[0]);
        case LIST: return ListExpression::make(p, list()); case SET: return SetExpression::make(p, list());
        case MAP: { auto l = MapItemList::make(p); for (size_t i = 0; i < c.size(); ++i) l->add(S(i), c[i]); return MapExpression::make(p, l); }
        case LABEL: return LabelExpression::make(p, S(0));
        case CASE: { auto l = CaseList::make(p); for (size_t i = 2; i + 1 < c.size(); i += 2) l->add(c[i], c[i + 1]); auto r = CaseExpression::make(p, l, e.n[0] != 0); r->setCondition(c[0]); r->setDefault(c[1]); return r; }
        case PRED: { auto r = PredicateExpression::make(p, S(0), S(1), c[0], c[1]); if (!S(2).empty()) r->setOriginString(S(2)); return r; }
        case COMPR: { auto r = ListComprehensionExpression::make(p, S(0), c[0], c[1], c[2]); if (!S(1).empty()) r->setOriginString(S(1)); return r; }
        case REDUCE: { auto r = ReduceExpression::make(p, S(0), c[0], S(1), c[1], c[2]); if (!S(2).empty()) r->setOriginString(S(2)); return r; }
        case PATH: { auto r = PathBuildExpression::make(p); for (auto t : c) r->add(t); return r; }
        case TSPREFIX: case TSWILD: case TSREG: case TSFUZZY: {
            auto a = TextSearchArgument::make(p, S(0), S(1), S(2)); a->setOP(S(3)); a->setFuzziness((int)e.n[0]); a->setLimit((int)e.n[1]); a->setTimeout((int)e.n[2]);
            return e.k == TSPREFIX ? TextSearchExpression::makePrefix(p, a) : e.k == TSWILD ? TextSearchExpression::makeWildcard(p, a) : e.k == TSREG ? TextSearchExpression::makeRegexp(p, a) : TextSearchExpression::makeFuzzy(p, a); }
        case AGG: return AggregateExpression::make(p, S(0), c[0], e.n[0] != 0);
        case RANGE: return SubscriptRangeExpression::make(p, c[0], c[1], c[2]);
    }
    fprintf(stderr, "no way to build kind %d\n", e.k); abort();
}
// how it prints
inline std::string show(const X& e) {
    auto T = [&](int i) { return show(e.kids[i]); };
    auto seq = [&](const char* sep) { std::string r; for (size_t i = 0; i < e.kids.size(); ++i) r += (i ? sep : "") + show(e.kids[i]); return r; };
    static const std::map<int, const char*> OP = {{ADD, "+"}, {MINUS, "-"}, {MUL, "*"}, {DIV, "/"}, {MOD, "%"}, {EQ, "=="}, {NE, "!="}, {LT, "<"}, {LE, "<="}, {GT, ">"}, {GE, ">="}, {REG, "=~"}, {IN, " IN "}, {NOTIN, " NOT IN "}, {CONTAINS, " CONTAINS "}, {NOTCONTAINS, " NOT CONTAINS "},
        {STARTS, " STARTS WITH "}, {NOTSTARTS, " NOT STARTS WITH "}, {ENDS, " ENDS WITH "}, {NOTENDS, " NOT ENDS WITH "}, {AND, " AND "}, {OR, " OR "}, {XOR, " XOR "}, {PLUS, "+"}, {NEG, "-"}, {NOT, "!"}, {INCR, "++"}, {DECR, "--"},
        {ISNULL, " IS NULL"}, {ISNOTNULL, " IS NOT NULL"}, {ISEMPTY, " IS EMPTY"}, {ISNOTEMPTY, " IS NOT EMPTY"}, {TSPREFIX, "PREFIX"}, {TSWILD, "WILDCARD"}, {TSREG, "REGEXP"}, {TSFUZZY, "FUZZY"}};
    static const std::map<uint64_t, const char*> TY = {{1, "__EMPTY__"}, {2, "BOOL"}, {4, "INT"}, {8, "FLOAT"}, {16, "STRING"}, {32, "DATE"}, {64, "TIME"}, {128, "DATETIME"}, {256, "VERTEX"}, {512, "EDGE"}, {1024, "PATH"}, {2048, "LIST"}, {4096, "MAP"}, {8192, "SET"}, {16384, "DATASET"}, {1ull << 63, "NULL"}};
    auto plain = [&](const X& c) { Value v; if (c.k == CONST) v = parse(c.s[0]); return v.isStr() ? v.getStr() : show(c); };
    if (e.k == SUBSCRIPT) return T(0) + "[" + T(1) + "]";
    if (e.k == ATTR) return T(0) + "." + plain(e.kids[1]);
    if (binary(e.k) || is(e.k, AND, XOR)) return "(" + seq(OP.at(e.k)) + ")";
    if (is(e.k, ISNULL, ISNOTEMPTY)) return T(0) + OP.at(e.k);
    if (unary(e.k)) return std::string(OP.at(e.k)) + "(" + T(0) + ")";
    switch (e.k) {
        case CONST: return parse(e.s[0]).toString();
        case LABELATTR: return e.s[0] + "." + plain(cst(e.s[1]));
        case COLUMN: return "COLUMN[" + std::to_string(e.n[0]) + "]";
        case CAST: return std::string("(") + TY.at(e.n[0]) + ")" + T(0);
        case CALL: return e.s[0] + "(" + seq(",") + ")";
        case TAGPROP: case EDGEPROP: return e.s[0] + "." + e.s[1]; case INPUTPROP: return "$-." + e.s[0]; case VARPROP: return "$" + e.s[0] + "." + e.s[1]; case DSTPROP: return "$$." + e.s[0] + "." + e.s[1]; case SRCPROP: return "$^." + e.s[0] + "." + e.s[1];
        case ESRC: return e.s[0] + "._src"; case ETYPE: return e.s[0] + "._type"; case ERANK: return e.s[0] + "._rank"; case EDST: return e.s[0] + "._dst"; case VERTEX: return "VERTEX"; case EDGE: return "EDGE"; case UUID: return "uuid(\"" + e.s[0] + "\")";
        case VAR: return "$" + e.s[0]; case VVAR: return "$" + e.s[0] + (e.kids[0].k == NONE ? "" : "{" + T(0) + "}");
        case LIST: return "[" + seq(",") + "]"; case SET: return "{" + seq(",") + "}"; case PATH: return "PathBuild[" + seq(",") + "]";
        case MAP: { std::string r = "{"; for (size_t i = 0; i < e.kids.size(); ++i) r += (i ? "," : "") + e.s[i] + ":" + T(i); return r + "}"; }
        case LABEL: return e.s[0];
        case CASE: {
            if (!e.n[0]) return "(" + T(2) + " ? " + T(3) + " : " + T(1) + ")";
            std::string r = "CASE"; if (e.kids[0].k != NONE) r += " " + T(0); for (size_t i = 2; i < e.kids.size(); i += 2) r += " WHEN " + T(i) + " THEN " + T(i + 1); if (e.kids[1].k != NONE) r += " ELSE " + T(1); return r + " END"; }
        case PRED: return e.s[0] == "exists" ? "exists(" + T(0) + ")" : e.s[0] + "(" + e.s[1] + " IN " + T(0) + " WHERE " + T(1) + ")";
        case COMPR: return "[" + e.s[0] + " IN " + T(0) + (e.kids[1].k == NONE ? "" : " WHERE " + T(1)) + (e.kids[2].k == NONE ? "" : " | " + T(2)) + "]";
        case REDUCE: return "reduce(" + e.s[0] + " = " + T(0) + ", " + e.s[1] + " IN " + T(1) + " | " + T(2) + ")";
        case TSPREFIX: case TSWILD: case TSREG: case TSFUZZY: {
            std::string r = std::string(OP.at(e.k)) + "(" + e.s[0] + "." + e.s[1] + ", \"" + e.s[2] + "\"", op = e.s[3] == "or" ? "OR" : "AND";
            if (e.n[0] == -1) r += ", AUTO, " + op; else if (e.n[0] > -1) r += ", " + std::to_string(e.n[0]) + ", " + op;
            if (e.n[1] != -1) r += ", " + std::to_string(e.n[1]); if (e.n[2] != -1) r += ", " + std::to_string(e.n[2]); return r + ")"; }
        case AGG: return e.s[0] + "(" + (e.n[0] ? "distinct " : "") + plain(e.kids[0]) + ")";
        case RANGE: return T(0) + "[" + (e.kids[1].k == NONE ? "" : T(1)) + ".." + (e.kids[2].k == NONE ? "" : T(2)) + "]";
    }
    return "?";
}
inline std::string origin(const X& e) { std::string o = e.k == PRED || e.k == REDUCE ? e.s[2] : e.k == COMPR ? e.s[1] : ""; return o.empty() ? show(e) : o; }
// equal: kind, operator, operands, names and constants; the original text of a query is no part of its meaning
inline bool same(const X& a, const X& b) {
    if (a.k != b.k || a.n != b.n || a.kids.size() != b.kids.size()) return false;
    if (a.k == CONST) return valrel::eq(parse(a.s[0]), parse(b.s[0]));
    if (a.k == LABELATTR) return a.s[0] == b.s[0] && valrel::eq(parse(a.s[1]), parse(b.s[1]));
    size_t names = a.k == PRED || a.k == REDUCE ? 2 : a.k == COMPR ? 1 : a.s.size();
    if (a.s.size() != b.s.size()) return false; for (size_t i = 0; i < names; ++i) if (a.s[i] != b.s[i]) return false;
    for (size_t i = 0; i < a.kids.size(); ++i) if (!same(a.kids[i], b.kids[i])) return false;
    return true;
}
inline bool encodable(const X& e) { if (e.k == LABELATTR || e.k == INPUTPROP || e.k == VARPROP || e.k == VVAR || is(e.k, TSPREFIX, TSFUZZY)) return false; for (auto& c : e.kids) if (c.k != NONE && !encodable(c)) return false; return true; }
// the nodes of a real expression, by its accessors
inline void slots(Ex* e, std::vector<Ex*>& kids, std::vector<std::function<void(Ex*)>>* put = nullptr) {
    auto add = [&](Ex* c, std::function<void(Ex*)> f) { kids.push_back(c); if (put) put->push_back(f); };
    switch ((int)e->kind()) {
        case AND: case OR: case XOR: { auto l = static_cast<LogicalExpression*>(e); for (size_t i = 0; i < l->operands().size(); ++i) add(l->operand(i), [=](Ex* c) { l->setOperand(i, c); }); break; }
        case CAST: { auto l = static_cast<TypeCastingExpression*>(e); add(l->operand(), [=](Ex* c) { l->setOperand(c); }); break; }
        case CALL: { auto l = static_cast<FunctionCallExpression*>(e); for (size_t i = 0; i < l->args()->numArgs(); ++i) add(l->args()->args()[i], [=](Ex* c) { l->args()->setArg(i, c); }); break; }
        case LIST: { auto l = static_cast<ListExpression*>(e); for (size_t i = 0; i < l->size(); ++i) add(l->items()[i], [=](Ex* c) { l->setItem(i, c); }); break; }
        case SET: { auto l = static_cast<SetExpression*>(e); for (size_t i = 0; i < l->size(); ++i) add(l->items()[i], [=](Ex* c) { l->setItem(i, c); }); break; }
        case PATH: { auto l = static_cast<PathBuildExpression*>(e); for (size_t i = 0; i < l->size(); ++i) add(l->items()[i], [=](Ex* c) { l->setItem(i, c); }); break; }
        case MAP: { auto l = static_cast<MapExpression*>(e); for (size_t i = 0; i < l->size(); ++i) add(l->items()[i].second, [=](Ex* c) { l->setItem(i, {l->items()[i].first, c}); }); break; }
        case CASE: { auto l = static_cast<CaseExpression*>(e); if (l->hasCondition()) add(l->condition(), [=](Ex* c) { l->setCondition(c); }); if (l->hasDefault()) add(l->defaultResult(), [=](Ex* c) { l->setDefault(c); });
            for (size_t i = 0; i < l->numCases(); ++i) { add(l->cases()[i].when, [=](Ex* c) { l->setWhen(i, c); }); add(l->cases()[i].then, [=](Ex* c) { l->setThen(i, c); }); } break; }
        case PRED: { auto l = static_cast<PredicateExpression*>(e); add(l->collection(), [=](Ex* c) { l->setCollection(c); }); if (l->hasFilter()) add(l->filter(), [=](Ex* c) { l->setFilter(c); }); break; }
        case COMPR: { auto l = static_cast<ListComprehensionExpression*>(e); add(l->collection(), [=](Ex* c) { l->setCollection(c); }); if (l->hasFilter()) add(l->filter(), [=](Ex* c) { l->setFilter(c); }); if (l->hasMapping()) add(l->mapping(), [=](Ex* c) { l->setMapping(c); }); break; }
        case REDUCE: { auto l = static_cast<ReduceExpression*>(e); add(l->initial(), [=](Ex* c) { l->setInitial(c); }); add(l->collection(), [=](Ex* c) { l->setCollection(c); }); add(l->mapping(), [=](Ex* c) { l->setMapping(c); }); break; }
        case AGG: { auto l = static_cast<AggregateExpression*>(e); add(l->arg(), [=](Ex* c) { l->setArg(c); }); break; }
        case RANGE: { auto l = static_cast<SubscriptRangeExpression*>(e); add(l->list(), [=](Ex* c) { l->setList(c); }); if (l->lo()) add(l->lo(), [=](Ex* c) { l->setLo(c); }); if (l->hi()) add(l->hi(), [=](Ex* c) { l->setHi(c); }); break; }
        case LABELATTR: { auto l = static_cast<LabelAttributeExpression*>(e); kids.push_back(l->left()); kids.push_back(l->right()); if (put) { put->push_back(nullptr); put->push_back(nullptr); } break; }
        default:
            if (binary((int)e->kind())) { auto l = static_cast<BinaryExpression*>(e); add(l->left(), [=](Ex* c) { l->setLeft(c); }); add(l->right(), [=](Ex* c) { l->setRight(c); }); }
            else if (unary((int)e->kind())) { auto l = static_cast<UnaryExpression*>(e); add(l->operand(), [=](Ex* c) { l->setOperand(c); }); }
    }
}
inline void nodes(Ex* e, std::vector<Ex*>& out) { out.push_back(e); std::vector<Ex*> k; slots(e, k); for (auto c : k) nodes(c, out); }
// ---- contexts ----
struct Env : ExpressionContext {
    std::map<std::string, Value> vars; mutable std::map<std::string, Value> made; mutable std::vector<std::string> log; std::string salt;
    Value none, vertex, edge;
    const Value& getVar(const std::string& v) const override { log.push_back("get " + v); auto i = vars.find(v); return i == vars.end() ? none : i->second; }
    const Value& prop(const std::string& what) const { log.push_back(what); auto& v = made[what]; v = Value(what + salt); return v; }
    const Value& getVersionedVar(const std::string& v, int64_t n) const override { return prop("version " + v + " " + std::to_string(n)); }
    const Value& getVarProp(const std::string& v, const std::string& p) const override { return prop("varprop " + v + " " + p); }
    Value getEdgeProp(const std::string& v, const std::string& p) const override { return prop("edgeprop " + v + " " + p); }
    Value getTagProp(const std::string& v, const std::string& p) const override { return prop("tagprop " + v + " " + p); }
    Value getSrcProp(const std::string& v, const std::string& p) const override { return prop("srcprop " + v + " " + p); }
    const Value& getDstProp(const std::string& v, const std::string& p) const override { return prop("dstprop " + v + " " + p); }
    const Value& getInputProp(const std::string& p) const override { return prop("inputprop " + p); }
    Value getVertex() const override { log.push_back("vertex"); return vertex; }
    Value getEdge() const override { log.push_back("edge"); return edge; }
    Value getColumn(int32_t n) const override { return prop("column " + std::to_string(n)); }
    void setVar(const std::string& v, Value x) override { log.push_back("set " + v + "=" + repr(x)); vars[v] = std::move(x); }
    std::string content() const { std::string r; for (auto& v : vars) r += v.first + "=" + repr(v.second) + " "; return r; }
    Env copy() const { Env e; e.vars = vars; e.vertex = vertex; e.edge = edge; e.salt = salt; return e; }
    Env() = default;
    Env(const Env& o) : ExpressionContext() { vars = o.vars; vertex = o.vertex; edge = o.edge; salt = o.salt; }
};
// ---- what evaluating gives ----
struct Undefined {};
inline Value eval(const X& e, Env& c);
inline Value nul(int k) { return Value((NullType)k); }
inline const Value* find(const std::unordered_map<std::string, Value>& m, const std::string& k) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; }
inline const Value* find(const Vertex& v, const std::string& k) { for (auto& t : v.tags) if (auto r = find(t.props, k)) return r; return nullptr; }
inline bool bad(const Value& v) { return v.isNull() && (int)v.getNull() != 0; }
inline bool has(const Value& r, const Value& l, bool& vague) {     // is there an element equal to l
    if (r.isMap()) return l.isStr() && find(r.getMap().kvs, l.getStr());
    if (r.isList()) { for (auto& v : r.getList().values) if (valrel::eq(v, l)) return true; return false; }
    bool f = false; for (auto& v : r.getSet().values) if (valrel::eq(v, l)) { if (v.type() == l.type() && !l.isFloat()) f = true; else if (repr(v) == repr(l)) f = true; else vague = true; }   // numbers equal only approximately may hash apart
    if (f) vague = false; return f;
}
inline Value attr(const Value& l, const std::string& r, bool dot) {
    int missing = dot ? 5 : 0;
    if (l.isMap()) { auto v = find(l.getMap().kvs, r); return v ? *v : nul(5); }
    if (l.isVertex()) { if (r == "_vid") return l.getVertex().vid; auto v = find(l.getVertex(), r); return v ? *v : nul(missing); }
    if (l.isEdge()) {
        auto& g = l.getEdge(); if (r.empty()) throw Undefined(); if (r == "_src") return g.src; if (r == "_dst") return g.dst; if (r == "_rank") return Value(g.ranking); if (r == "_type") return Value(g.name);
        if (r[0] == '_') return nul(missing); auto v = find(g.props, r); return v ? *v : nul(missing);
    }
    if (!dot) return nul(3);
    std::string p = r; for (auto& ch : p) ch = tolower(ch);
    if (l.isDate()) { auto d = l.getDate(); return p == "year" ? Value((int64_t)d.year) : p == "month" ? Value((int64_t)d.month) : p == "day" ? Value((int64_t)d.day) : nul(5); }
    if (l.isTime()) { auto d = l.getTime(); return p == "hour" ? Value((int64_t)d.hour) : p == "minute" ? Value((int64_t)d.minute) : p == "second" ? Value((int64_t)d.sec) : p == "microsecond" ? Value((int64_t)d.microsec) : nul(5); }
    if (l.isDateTime()) { auto d = l.getDateTime(); return p == "year" ? Value((int64_t)d.year) : p == "month" ? Value((int64_t)d.month) : p == "day" ? Value((int64_t)d.day) : p == "hour" ? Value((int64_t)d.hour) : p == "minute" ? Value((int64_t)d.minute) : p == "second" ? Value((int64_t)d.sec) : p == "microsecond" ? Value((int64_t)d.microsec) : nul(5); }
    return nul(3);
}
inline Value strings(int k, const Value& l, const Value& r) {
    if (bad(l) || bad(r) || (!l.isNull() && !l.isStr()) || (!r.isNull() && !r.isStr())) return nul(3);
    if (l.isNull() || r.isNull()) return nul(0);
    const std::string &a = l.getStr(), &b = r.getStr(); bool v = false;
    if (k == REG) { try { return Value(std::regex_match(a, std::regex(b))); } catch (const std::exception&) { return nul(3); } }
    if (k == CONTAINS || k == NOTCONTAINS) { for (size_t i = 0; i + b.size() <= a.size(); ++i) v |= std::equal(b.begin(), b.end(), a.begin() + i); }
    else if (k == STARTS || k == NOTSTARTS) v = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.begin());
    else v = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.end() - b.size());
    return Value(v != (k == NOTCONTAINS || k == NOTSTARTS || k == NOTENDS));
}
inline Value member(int k, const Value& l, const Value& r) {
    if (r.isNull() && !bad(r)) return nul(0);
    if (!r.isList() && !r.isSet() && !r.isMap()) return nul(3);
    if (l.isNull()) return nul(0);
    bool vague = false, f = has(r, l, vague); if (vague) throw Undefined();
    if (!f && !r.isMap()) { bool n = false; if (r.isList()) { for (auto& v : r.getList().values) n |= v.isNull(); } else for (auto& v : r.getSet().values) n |= v.isNull() && (!bad(v) || (vague = true, false)); if (n) return nul(0); if (vague) throw Undefined(); }
    return Value(f == (k == IN));
}
inline Value relation(int k, const Value& l, const Value& r) {
    switch (k) { case EQ: return l.equal(r); case NE: return !l.equal(r); case LT: return l.lessThan(r); case LE: return l.lessThan(r) || l.equal(r); case GT: return !l.lessThan(r) && !l.equal(r); default: return !l.lessThan(r) || l.equal(r); }
}
inline Value logical(const X& e, Env& c) {
    Value res; bool seenNull = false, seenEmpty = false, odd = false;
    for (auto& o : e.kids) {
        Value v = eval(o, c);
        if (e.k == XOR ? v.isNull() : bad(v) || (v.isBool() && v.getBool() == (e.k == OR))) return v;
        if (v.isBool()) odd ^= v.getBool(); else if (v.isNull()) seenNull = true; else if (v.empty()) seenEmpty = true; else return nul(3);
    }
    if (seenNull) return nul(0); if (seenEmpty) return Value(); return Value(e.k == XOR ? odd : e.k == AND);
}
inline bool asVertex(const Value& v, Vertex& o) { if (v.isStr() || v.isInt()) { o = Vertex(); o.vid = v; return true; } if (v.isVertex()) { o = v.getVertex(); return true; } if (v.isPath()) { o = v.getPath().src; return true; } return false; }
inline Value pathOf(const X& e, Env& c) {
    if (e.kids.empty()) return nul(0);
    Path p; Value first = eval(e.kids[0], c); if (!asVertex(first, p.src)) return nul(3); if (first.isPath()) p.steps = first.getPath().steps;
    for (size_t i = 1; i < e.kids.size(); ++i) {
        Value v = eval(e.kids[i], c); bool at = p.steps.empty(); Vertex end = at ? p.src : p.steps.back().dst;
        if (v.isEdge()) {
            auto& g = v.getEdge(); if (!valrel::eq(end.vid, g.src)) { if (at) throw Undefined(); return nul(2); }
            Step s; s.dst.vid = g.dst; s.type = g.type; s.name = g.name; s.ranking = g.ranking; s.props = g.props; p.steps.push_back(s);
        } else if (v.isVertex()) { if (at || !valrel::eq(end.vid, v.getVertex().vid)) return nul(2); p.steps.back().dst = v.getVertex(); }
        else if (v.isPath()) { auto& q = v.getPath(); if (!valrel::eq(end.vid, q.src.vid)) { if (at) throw Undefined(); return nul(2); } if (!at) p.steps.back().dst = q.src; p.steps.insert(p.steps.end(), q.steps.begin(), q.steps.end()); }
        else { Vertex o; if (i % 2 || at || !asVertex(v, o)) return nul(2); if (!valrel::eq(end.vid, o.vid)) throw Undefined(); p.steps.back().dst = o; }
    }
    return Value(p);
}
inline Value eval(const X& e, Env& c) {
    auto T = [&](int i) { return eval(e.kids[i], c); };
    if (is(e.k, ADD, MOD)) { Value a = T(0), b = T(1); switch (e.k) { case ADD: return a + b; case MINUS: return a - b; case MUL: return a * b; case DIV: return a / b; default: return a % b; } }
    if (is(e.k, EQ, GE)) { Value a = T(0), b = T(1); return relation(e.k, a, b); }
    if (is(e.k, CONTAINS, NOTENDS) || e.k == REG) { Value a = T(0), b = T(1); return strings(e.k, a, b); }
    if (is(e.k, AND, XOR)) return logical(e, c);
    switch (e.k) {
        case CONST: return parse(e.s[0]); case LABEL: return Value(e.s[0]);
        case PLUS: return T(0); case NEG: return -T(0); case NOT: return !T(0);
        case INCR: case DECR: { auto& o = e.kids[0]; if (o.k != VAR && o.k != VVAR) return nul(3); Value v = e.k == INCR ? T(0) + 1 : T(0) - 1; c.setVar(o.s[0], v); return v; }
        case ISNULL: return Value(T(0).isNull()); case ISNOTNULL: return Value(!T(0).isNull()); case ISEMPTY: return Value(T(0).empty()); case ISNOTEMPTY: return Value(!T(0).empty());
        case IN: case NOTIN: { Value a = T(0), b = T(1); return member(e.k, a, b); }
        case ATTR: { Value a = T(0), b = T(1); if (!b.isStr()) throw Undefined(); return attr(a, b.getStr(), true); }
        case SUBSCRIPT: {
            Value a = T(0), b = T(1);
            if (a.isList() || a.isDataSet()) { if (!b.isInt()) return nul(3); int64_t n = a.isList() ? a.getList().values.size() : a.getDataSet().rows.size(), i = b.getInt(); if (i >= n || i < (a.isList() ? -n : 0)) return nul(7); if (a.isList()) return a.getList().values[i < 0 ? i + n : i]; return Value(List(a.getDataSet().rows[i].values)); }
            if (a.isMap() || a.isVertex() || a.isEdge()) { if (!b.isStr()) return nul(0); return attr(a, b.getStr(), false); }
            return nul(3); }
        case RANGE: {
            Value l = T(0); if (!l.isList()) return nul(3); int64_t n = l.getList().values.size(); __int128 at[2] = {0, n};
            for (int i = 0; i < 2; ++i) if (e.kids[1 + i].k != NONE) { Value v = T(1 + i); if (v.isNull()) return nul(0); if (!v.isInt()) return nul(3); at[i] = v.getInt(); if (at[i] < 0) at[i] += n; }
            List r; for (int64_t i = 0; i < n; ++i) if (i >= at[0] && i < at[1]) r.values.push_back(l.getList().values[i]); return Value(r); }
        case CAST: { Value v = T(0); switch (e.n[0]) { case 2: return v.toBool(); case 4: return v.toInt(); case 8: return v.toFloat(); case 16: return v.isStr() ? v : Value(v.toString()); default: return nul(0); } }
        case CALL: { std::vector<Value> a; for (size_t i = 0; i < e.kids.size(); ++i) a.push_back(T(i)); std::vector<std::reference_wrapper<const Value>> r(a.begin(), a.end()); auto f = FunctionManager::get(e.s[0], a.size()); if (!f.ok()) throw Undefined(); return f.value()(r); }
        case TAGPROP: return c.getTagProp(e.s[0], e.s[1]); case EDGEPROP: return c.getEdgeProp(e.s[0], e.s[1]); case INPUTPROP: return c.getInputProp(e.s[0]); case VARPROP: return c.getVarProp(e.s[0], e.s[1]); case DSTPROP: return c.getDstProp(e.s[0], e.s[1]); case SRCPROP: return c.getSrcProp(e.s[0], e.s[1]);
        case ESRC: return c.getEdgeProp(e.s[0], "_src"); case ETYPE: return c.getEdgeProp(e.s[0], "_type"); case ERANK: return c.getEdgeProp(e.s[0], "_rank"); case EDST: return c.getEdgeProp(e.s[0], "_dst");
        case VERTEX: return c.getVertex(); case EDGE: return c.getEdge(); case COLUMN: return c.getColumn((int32_t)e.n[0]); case VAR: return c.getVar(e.s[0]); case UUID: return Value();
        case VVAR: { if (e.kids[0].k == NONE) return c.getVar(e.s[0]); Value v = T(0); if (!v.isInt()) return nul(3); return c.getVersionedVar(e.s[0], v.getInt()); }
        case LIST: { List l; for (size_t i = 0; i < e.kids.size(); ++i) l.values.push_back(T(i)); return Value(l); }
        case SET: { std::vector<Value> u; for (size_t i = 0; i < e.kids.size(); ++i) { Value v = T(i); bool dup = false; for (auto& w : u) if (valrel::eq(v, w)) { if (repr(v) != repr(w)) throw Undefined(); dup = true; } if (!dup) u.push_back(v); } Set s; for (auto& v : u) s.values.insert(v); return Value(s); }
        case MAP: { Map m; for (size_t i = 0; i < e.kids.size(); ++i) { if (m.kvs.count(e.s[i])) throw Undefined(); m.kvs.emplace(e.s[i], T(i)); } return Value(m); }
        case CASE: {
            Value cond; bool on = e.kids[0].k != NONE; if (on) cond = T(0);
            for (size_t i = 2; i < e.kids.size(); i += 2) { Value w = T(i); if (!on && !w.isBool()) return nul(3); if (on ? valrel::eq(cond, w) : w.getBool()) return T(i + 1); }
            return e.kids[1].k != NONE ? T(1) : nul(0); }
        case PRED: {
            if (e.s[0] == "exists") {
                if (e.kids[0].k != ATTR && e.kids[0].k != SUBSCRIPT) throw Undefined(); Value a = eval(e.kids[0].kids[0], c), b = eval(e.kids[0].kids[1], c); if (!b.isStr()) return nul(3);
                const Value* v = nullptr; if (a.isMap()) v = find(a.getMap().kvs, b.getStr()); else if (a.isVertex()) v = find(a.getVertex(), b.getStr()); else if (a.isEdge()) v = find(a.getEdge().props, b.getStr()); else return a.isNull() ? nul(0) : nul(3);
                return Value(v && !v->isNull()); }
            int t = e.s[0] == "all" ? 0 : e.s[0] == "any" ? 1 : e.s[0] == "single" ? 2 : e.s[0] == "none" ? 3 : 4; if (t == 4) return nul(3);
            Value l = T(0); if (l.isNull() || l.empty()) return l; if (!l.isList()) return nul(3); int n = 0;
            for (auto& v : l.getList().values) {
                c.setVar(e.s[1], v); Value f = T(1); if (!f.isBool() && !f.isNull() && !f.empty()) return nul(3); bool y = f.isBool() && f.getBool(); n += y;
                if (t == 0 && !y) return Value(false); if (t == 1 && y) return Value(true); if (t == 2 && n > 1) return Value(false); if (t == 3 && y) return Value(false);
            }
            return Value(t == 0 || t == 3 || (t == 2 && n == 1)); }
        case COMPR: {
            Value l = T(0); if (l.isNull() || l.empty()) return l; if (!l.isList()) return nul(3); if (e.kids[1].k == NONE && e.kids[2].k == NONE) return l; List r;
            for (auto& v : l.getList().values) { c.setVar(e.s[0], v); if (e.kids[1].k != NONE) { Value f = T(1); if (!f.isBool() && !f.isNull() && !f.empty()) return nul(3); if (!f.isBool() || !f.getBool()) continue; } r.values.push_back(e.kids[2].k != NONE ? T(2) : v); }
            return Value(r); }
        case REDUCE: {
            Value a = T(0), l = T(1); if (l.isNull() || l.empty()) return l; if (!l.isList()) return nul(3); c.setVar(e.s[0], a);
            for (auto& v : l.getList().values) { c.setVar(e.s[1], v); a = T(2); c.setVar(e.s[0], a); }
            return a; }
        case PATH: return pathOf(e, c);
    }
    throw Undefined();
}
}  // namespace exprs
