// C23: dynamic values hold exactly what they were last given; all histories within bounds.
#include "common/base/Base.h"
#include "mc.h"
#include "heap.h"
#include "vals.h"
#include <type_traits>
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr; using vals::VT;
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal {};
static void throwFatal(const char*, int, const char*) { throw Fatal(); }
template <class F> bool rejects(F f) { try { f(); } catch (const Fatal&) { return true; } return false; }

static const std::vector<std::string> CONTENT = {
    "e", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "b0", "b1", "i0", "i-9223372036854775808", "f0.5", "finf", "''", "'text'", "'a text that does not fit in place \\00 with a zero'",
    "d(2020,2,29)", "d(-32768,1,1)", "t(23,59,59,999999)", "T(2021,12,31,1,2,3,4)", "V('v';'tag'{'p':i1})", "E('a','b',3,'e',-7,{'w':f1.5})",
    "P(V('a';'t'{});(V('b'),1,'e',0,{'p':'a text that does not fit in place'}))", "[]", "[i1,'a text that does not fit in place',[b1,[n0]],n3]", "{'k':[i1],'l':{'m':'x'}}", "<'s',b0,i1>", "D('c1','c2';[i1,'x'];[n0,[e]])"};
static VT typeOf(const std::string& r) {
    switch (r[0]) { case 'e': return VT::__EMPTY__; case 'n': return VT::NULLVALUE; case 'b': return VT::BOOL; case 'i': return VT::INT; case 'f': return VT::FLOAT; case '\'': return VT::STRING; case 'd': return VT::DATE; case 't': return VT::TIME; case 'T': return VT::DATETIME;
        case 'V': return VT::VERTEX; case 'E': return VT::EDGE; case 'P': return VT::PATH; case '[': return VT::LIST; case '{': return VT::MAP; case '<': return VT::SET; default: return VT::DATASET; }
}
static const char* nameOf(const std::string& r) {
    static const char* nulls[] = {"__NULL__", "NaN", "BAD_DATA", "BAD_TYPE", "ERR_OVERFLOW", "UNKNOWN_PROP", "DIV_BY_ZERO", "OUT_OF_RANGE"};
    switch (r[0]) { case 'e': return "__EMPTY__"; case 'n': return nulls[r[1] - '0']; case 'b': return "bool"; case 'i': return "int"; case 'f': return "float"; case '\'': return "string"; case 'd': return "date"; case 't': return "time"; case 'T': return "datetime";
        case 'V': return "vertex"; case 'E': return "edge"; case 'P': return "path"; case '[': return "list"; case '{': return "map"; case '<': return "set"; default: return "dataset"; }
}
// F(type, accessor name)
#define TYPES(F) F(NULLVALUE, Null) F(BOOL, Bool) F(INT, Int) F(FLOAT, Float) F(STRING, Str) F(DATE, Date) F(TIME, Time) F(DATETIME, DateTime) F(VERTEX, Vertex) F(EDGE, Edge) F(PATH, Path) F(LIST, List) F(MAP, Map) F(SET, Set) F(DATASET, DataSet)
#define PTRS(F) F(VERTEX, Vertex) F(EDGE, Edge) F(PATH, Path) F(LIST, List) F(MAP, Map) F(SET, Set) F(DATASET, DataSet)

// full comparison of a value with what it should hold
static void check(Ctx& c, Value& v, const std::string& want, const char* who) {
    const Value& k = v; VT t = typeOf(want);
    MC_CHECK(c, k.type() == t, "type", who << " reports type " << k.type() << " but was last given " << want);
    std::string is = repr(k);
    MC_CHECK(c, is == want, "content", who << " holds " << is << " but was last given " << want);
    MC_CHECK(c, k.typeName() == nameOf(want), "type-name", who << " names its type " << k.typeName() << " while holding " << want);
    MC_CHECK(c, k.empty() == (t == VT::__EMPTY__) && k.isNull() == (t == VT::NULLVALUE) && k.isBadNull() == (t == VT::NULLVALUE && want != "n0") && k.isNumeric() == (t == VT::INT || t == VT::FLOAT) && k.isBool() == (t == VT::BOOL) && k.isInt() == (t == VT::INT) && k.isFloat() == (t == VT::FLOAT) && k.isStr() == (t == VT::STRING)
        && k.isDate() == (t == VT::DATE) && k.isTime() == (t == VT::TIME) && k.isDateTime() == (t == VT::DATETIME) && k.isVertex() == (t == VT::VERTEX) && k.isEdge() == (t == VT::EDGE) && k.isPath() == (t == VT::PATH) && k.isList() == (t == VT::LIST) && k.isMap() == (t == VT::MAP) && k.isSet() == (t == VT::SET) && k.isDataSet() == (t == VT::DATASET),
        "kind", who << " answers a question about its kind wrongly while holding " << want);
#define SAME(T, N) if (t == VT::T) MC_CHECK(c, &k.get##N() == &v.mutable##N(), "access", who << " reads and changes different content");
    TYPES(SAME)
#define PTR(T, N) if (t == VT::T) MC_CHECK(c, &k.get##N() == k.get##N##Ptr(), "access", who << " gives different contents by reference and by pointer");
    PTRS(PTR)
}
static void checkRejects(Ctx& c, Value& v, const std::string& want) {
    VT t = typeOf(want); const Value& k = v;
#define REJ(T, N) if (t != VT::T) MC_CHECK(c, rejects([&] { (void)k.get##N(); }) && rejects([&] { (void)v.mutable##N(); }) && rejects([&] { (void)v.move##N(); }), "reject", "reading as " #N " is not rejected while holding " << want);
    TYPES(REJ)
#define REJP(T, N) if (t != VT::T) MC_CHECK(c, rejects([&] { (void)k.get##N##Ptr(); }), "reject", "reading a pointer to " #N " is not rejected while holding " << want);
    PTRS(REJP)
    check(c, v, want, "a value after rejected reads");
}
template <class T> struct Num { static constexpr bool is = false; };
// the ways to give v the content `src` (a fresh value); returns false when the form does not exist for the type
template <class T> static bool give(Value& v, int form, T raw, void (Value::*cset)(const T&), void (Value::*mset)(T&&)) {
    switch (form) { case 0: { const T k = raw; v = Value(k); return true; } case 1: v = Value(std::move(raw)); return true; case 2: { const T k = raw; (v.*cset)(k); return true; } case 3: (v.*mset)(std::move(raw)); return true; }
    return false;
}
static bool giveContent(Ctx& c, Value& v, const std::string& r, int form) {
    Value src = parse(r);
    if (form == 4) { v = src; check(c, src, r, "the source of an assignment"); return true; }
    if (form == 5) { v = std::move(src); check(c, src, "e", "a moved-from value"); return true; }
    if (form == 6) { v.~Value(); new (&v) Value(src); check(c, src, r, "the source of a copy"); return true; }
    if (form == 7) { v.~Value(); new (&v) Value(std::move(src)); check(c, src, "e", "a moved-from value"); return true; }
    switch (src.type()) {
        case VT::__EMPTY__: if (form == 0) { v.clear(); return true; } if (form == 1) { v.__clear(); return true; } return false;
#define GIVE(T, N, C) case VT::T: if (form < 4) return give<C>(v, form, src.get##N(), &Value::set##N, &Value::set##N);
        GIVE(NULLVALUE, Null, NullType) break; GIVE(BOOL, Bool, bool) break; GIVE(FLOAT, Float, double) break; GIVE(DATE, Date, Date) break; GIVE(TIME, Time, Time) break; GIVE(DATETIME, DateTime, DateTime) break;
        case VT::INT: if (form < 4) return give<int64_t>(v, form, src.getInt(), &Value::setInt, &Value::setInt); break;
        GIVE(STRING, Str, std::string) if (form == 8 && src.getStr().find('\0') == std::string::npos) { v.setStr(src.getStr().c_str()); return true; } if (form == 9 && src.getStr().find('\0') == std::string::npos) { v = Value(src.getStr().c_str()); return true; } break;
#define GIVEP(T, N) case VT::T: if (form < 4) return give<N>(v, form, src.get##N(), &Value::set##N, &Value::set##N); if (form == 8) { auto p = std::make_unique<N>(src.get##N()); auto* raw = p.get(); v.set##N(std::move(p)); MC_CHECK(c, !p && v.get##N##Ptr() == raw, "owned", "an owned " #N " is not taken over"); return true; } break;
        PTRS(GIVEP)
    }
    return false;
}
// changes the content in place; returns the new expected content
static std::string mutate(Value& v) {
    switch (v.type()) {
        case VT::__EMPTY__: return "e";
        case VT::NULLVALUE: v.mutableNull() = NullType::NaN; return "n1";
        case VT::BOOL: v.mutableBool() = !v.getBool(); return v.getBool() ? "b1" : "b0";
        case VT::INT: v.mutableInt() ^= 5; return repr(v);
        case VT::FLOAT: v.mutableFloat() = -2.5; return "f-2.5";
        case VT::STRING: v.mutableStr() = "changed"; return "'changed'";
        case VT::DATE: v.mutableDate().month = 7; return repr(v);
        case VT::TIME: v.mutableTime().sec = 7; return repr(v);
        case VT::DATETIME: v.mutableDateTime().microsec = 7; return repr(v);
        case VT::VERTEX: v.mutableVertex().vid = 5; v.mutableVertex().tags.clear(); return "V(i5)";
        case VT::EDGE: v.mutableEdge().props.clear(); v.mutableEdge().src = 9; return repr(v);
        case VT::PATH: v.mutablePath().steps.clear(); return repr(v);
        case VT::LIST: v.mutableList().values.clear(); v.mutableList().values.emplace_back("changed"); return "['changed']";
        case VT::MAP: v.mutableMap().kvs.clear(); v.mutableMap().kvs.emplace("z", 1); return "{'z':i1}";
        case VT::SET: v.mutableSet().values.clear(); return "<>";
        case VT::DATASET: v.mutableDataSet().rows.clear(); v.mutableDataSet().colNames = {"z"}; return "D('z')";
    }
    return "?";
}
static std::string take(Ctx& c, Value& v, std::string& want) {
    std::string got;
    switch (v.type()) { case VT::__EMPTY__: return "e";
#define TAKE(T, N) case VT::T: { auto o = v.move##N(); got = repr(Value(std::move(o))); break; }
        TYPES(TAKE) }
    MC_CHECK(c, got == want, "take", "taking the content gives " << got << " instead of " << want);
    want = "e"; return got;
}
// a nested value of v (for assigning a value a part of itself)
static Value* part(Value& v, int k) {
    switch (v.type()) {
        case VT::LIST: return k < (int)v.getList().values.size() ? &v.mutableList().values[k] : nullptr;
        case VT::MAP: { auto i = v.mutableMap().kvs.find(k == 0 ? "k" : k == 1 ? "l" : "-"); return i == v.mutableMap().kvs.end() ? nullptr : &i->second; }
        case VT::VERTEX: return k == 0 ? &v.mutableVertex().vid : k == 1 && v.getVertex().tags.size() && v.getVertex().tags[0].props.size() ? &v.mutableVertex().tags[0].props.begin()->second : nullptr;
        case VT::EDGE: return k == 0 ? &v.mutableEdge().src : k == 1 && v.getEdge().props.size() ? &v.mutableEdge().props.begin()->second : nullptr;
        case VT::PATH: return k == 0 ? &v.mutablePath().src.vid : k == 1 && v.getPath().steps.size() && v.getPath().steps[0].props.size() ? &v.mutablePath().steps[0].props.begin()->second : nullptr;
        case VT::DATASET: return v.getDataSet().rows.size() > 1 && k < 2 ? &v.mutableDataSet().rows[1].values[k] : nullptr;
        case VT::SET: { if (k > 2 || k >= (int)v.getSet().values.size()) return nullptr; auto i = v.getSet().values.begin(); std::advance(i, k); return const_cast<Value*>(&*i); }
        default: return nullptr;
    }
}
static void setFromPart(Value& v, const Value& p, bool move) {
    switch (p.type()) { case VT::__EMPTY__: v.clear(); break;
#define SETP(T, N) case VT::T: if (move) v.set##N(std::move(const_cast<Value&>(p).mutable##N())); else v.set##N(p.get##N()); break;
        TYPES(SETP) }
}

int main(int argc, char** argv) {
    mc_fatal_hook = throwFatal;
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"give", [](Ctx& c) {   // previous content x form x new content x form
        int a = c.choose((int)CONTENT.size()), fa = c.choose(2) ? 3 : 5, b = c.choose((int)CONTENT.size()), fb = c.choose(10);
        { Value warm = parse(CONTENT[a]); (void)repr(warm); (void)warm.typeName(); }
        long live = mc::heap_live();
        { Value v; if (!giveContent(c, v, CONTENT[a], fa)) throw mc::Abandon(); MC_LOG(c, CONTENT[a] << " then " << CONTENT[b] << " by form " << fb);
          if (!giveContent(c, v, CONTENT[b], fb)) throw mc::Abandon();
          c.step(2); check(c, v, CONTENT[b], "the value"); checkRejects(c, v, CONTENT[b]); c.state(CONTENT[b]); c.outcome(nameOf(CONTENT[b])); }
        MC_CHECK(c, mc::heap_live() == live, "leak", mc::heap_live() - live << " heap blocks are left behind after " << CONTENT[a] << " then " << CONTENT[b]);
    }, false, "every content, replaced by every content in every way of giving a value one"});
    sc.push_back({"two", [](Ctx& c) {   // histories over two values
        int n = c.thorough() ? 4 : 3;
        int a = c.choose((int)CONTENT.size()), b = c.choose((int)CONTENT.size());
        { Value w = parse(CONTENT[a]); (void)w.typeName(); }
        long live = mc::heap_live();
        {
            Value x, y; std::string mx = CONTENT[a], my = CONTENT[b]; x = parse(mx); y = parse(my); MC_LOG(c, "x = " << mx << "; y = " << my);
            for (int i = 0; i < n; ++i) {
                int k = c.choose(16);
                switch (k) {
                    case 0: MC_LOG(c, "x = y"); x = y; mx = my; break;
                    case 1: MC_LOG(c, "y = move(x)"); y = std::move(x); my = mx; mx = "e"; break;
                    case 2: MC_LOG(c, "x = move(y)"); x = std::move(y); mx = my; my = "e"; break;
                    case 3: MC_LOG(c, "swap"); swap(x, y); std::swap(mx, my); break;
                    case 4: MC_LOG(c, "x = x"); { auto& r = x; x = r; } break;
                    case 5: MC_LOG(c, "x = move(x)"); { auto& r = x; x = std::move(r); } break;
                    case 6: MC_LOG(c, "change x in place"); mx = mutate(x); break;
                    case 7: MC_LOG(c, "take x"); take(c, x, mx); break;
                    case 8: MC_LOG(c, "clear x"); x.clear(); mx = "e"; break;
                    case 9: MC_LOG(c, "z(x); y = move(z)"); { Value z(x); check(c, z, mx, "a copy"); y = std::move(z); check(c, z, "e", "a moved-from value"); } my = mx; break;
                    case 10: MC_LOG(c, "z(move(x)); x = z"); { Value z(std::move(x)); check(c, x, "e", "a moved-from value"); x = z; check(c, z, mx, "a source"); } break;
                    case 11: MC_LOG(c, "x = [x, y]"); if (mx.size() + my.size() > 300) throw mc::Abandon(); { List l; l.emplace_back(x); l.emplace_back(y); x.setList(std::move(l)); } mx = "[" + mx + "," + my + "]"; break;
                    case 12: MC_LOG(c, "x.list += x"); if (!x.isList() || mx.size() > 300) throw mc::Abandon(); x.mutableList().emplace_back(x); mx = mx == "[]" ? "[[]]" : mx.substr(0, mx.size() - 1) + "," + mx + "]"; break;
                    case 13: MC_LOG(c, "y = {'k': move(x)}"); { Map m; m.kvs.emplace("k", std::move(x)); y = Value(std::move(m)); } my = "{'k':" + mx + "}"; mx = "e"; break;
                    case 14: MC_LOG(c, "a vector of copies of x grows"); { std::vector<Value> w; for (int j = 0; j < 5; ++j) w.push_back(x); for (auto& e : w) check(c, e, mx, "a stored copy"); w.erase(w.begin() + 1); w.insert(w.begin(), y); check(c, w[0], my, "an inserted copy"); check(c, w[1], mx, "a shifted copy"); check(c, w[4], mx, "a shifted copy"); } break;
                    case 15: MC_LOG(c, "D(c;[x];[y])"); if (mx.size() + my.size() > 300) throw mc::Abandon(); { DataSet d({"c"}); List r; r.emplace_back(x); d.emplace_back(std::move(r)); List s; s.emplace_back(y); d.emplace_back(std::move(s)); y.setDataSet(d); } my = "D('c';[" + mx + "];[" + my + "])"; break;
                }
                c.step(); check(c, x, mx, "x"); check(c, y, my, "y"); c.state(mx + "|" + my);
            }
            c.outcome(std::string(nameOf(mx)) + "," + nameOf(my));
        }
        MC_CHECK(c, mc::heap_live() == live, "leak", mc::heap_live() - live << " heap blocks are left behind");
    }, false, "all pairs of contents and all histories of 3 (4) of 16 operations on two values"});
    sc.push_back({"part", [](Ctx& c) {   // a value is given a part of itself
        int a = c.choose((int)CONTENT.size()), k = c.choose(4), how = c.choose(6);
        { Value w = parse(CONTENT[a]); (void)w.typeName(); }
        long live = mc::heap_live();
        {
            Value x = parse(CONTENT[a]); Value* p = part(x, k); if (!p) throw mc::Abandon();
            std::string want = repr(*p); MC_LOG(c, CONTENT[a] << ": part " << k << " = " << want << ", form " << how);
            if (how == 0) x = *p; else if (how == 1) x = std::move(*p);
            else if (how == 2) setFromPart(x, *p, false); else if (how == 3) setFromPart(x, *p, true);
            else { Value* q = part(*p, 0); if (!q) throw mc::Abandon(); want = repr(*q); if (how == 4) x = *q; else x = std::move(*q); }
            c.step(); check(c, x, want, "a value given a part of itself"); c.state(want); c.outcome(nameOf(want));
        }
        MC_CHECK(c, mc::heap_live() == live, "leak", mc::heap_live() - live << " heap blocks are left behind");
    }, false, "every content with every part of it, two levels deep, assigned and set, copied and moved"});
    sc.push_back({"own", [](Ctx& c) {   // a value is set to its own content
        int a = c.choose((int)CONTENT.size()); bool move = c.flip();
        { Value w = parse(CONTENT[a]); (void)w.typeName(); }
        long live = mc::heap_live();
        { Value x = parse(CONTENT[a]); MC_LOG(c, CONTENT[a] << (move ? " moved" : " copied") << " onto itself"); setFromPart(x, x, move); c.step(); check(c, x, CONTENT[a], "a value set to its own content"); c.state(CONTENT[a]); c.outcome(nameOf(CONTENT[a])); }
        MC_CHECK(c, mc::heap_live() == live, "leak", mc::heap_live() - live << " heap blocks are left behind");
    }, false, "every content set to itself"});
    sc.push_back({"integers", [](Ctx& c) {
        static const std::vector<int64_t> W = {0, 1, -1, 127, -128, 255, 32767, -32768, 65535, 2147483647LL, -2147483648LL, 4294967295LL, INT64_MAX, INT64_MIN};
        int64_t w = c.pick(W); int form = c.choose(4), width = c.choose(4); Value v("before");
        int64_t want = width == 0 ? (int8_t)w : width == 1 ? (int16_t)w : width == 2 ? (int32_t)w : w;
#define INTS(T) { T t = (T)w; const T k = t; if (form == 0) v = Value(k); else if (form == 1) v = Value(std::move(t)); else if (form == 2) v.setInt(k); else v.setInt(std::move(t)); }
        if (width == 0) INTS(int8_t) else if (width == 1) INTS(int16_t) else if (width == 2) INTS(int32_t) else INTS(int64_t)
        c.step(); check(c, v, "i" + std::to_string(want), "an integer value"); c.state(std::to_string(want)); c.outcome(std::to_string(want));
    }, false, "boundary integers of every width in every form"});
    sc.push_back({"constants", [](Ctx& c) {
        static const std::vector<std::pair<const Value*, std::string>> K = {{&Value::kEmpty, "e"}, {&Value::kNullValue, "n0"}, {&Value::kNullNaN, "n1"}, {&Value::kNullBadData, "n2"}, {&Value::kNullBadType, "n3"}, {&Value::kNullOverflow, "n4"}, {&Value::kNullUnknownProp, "n5"}, {&Value::kNullDivByZero, "n6"}, {&Value::kNullOutOfRange, "n7"}, {&Value::null(), "n0"}};
        auto& k = c.pick(K); Value v = *k.first; c.step(); check(c, v, k.second, "a predefined value"); checkRejects(c, v, k.second); v = Value(1); MC_CHECK(c, repr(*k.first) == k.second, "constant", "a predefined value changed"); c.state(k.second); c.outcome(k.second);
    }, false, "the predefined values"});
    return mc::run(argc, argv, "C23", sc, {"the folly helpers are stand-ins with their documented semantics"});
}
