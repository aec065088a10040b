// C27: the wire form of values and graph structures, against an encoder and a decoder built from the interface definition.
#include "mc.h"
#include "common/base/Base.h"
#include "common/datatypes/CommonCpp2Ops.h"
#include "common/datatypes/DataSetOps.inl"
#include "common/datatypes/DateOps.inl"
#include "common/datatypes/EdgeOps.inl"
#include "common/datatypes/HostAddrOps.inl"
#include "common/datatypes/KeyValueOps.inl"
#include "common/datatypes/ListOps.inl"
#include "common/datatypes/MapOps.inl"
#include "common/datatypes/PathOps.inl"
#include "common/datatypes/SetOps.inl"
#include "common/datatypes/ValueOps.inl"
#include "common/datatypes/VertexOps.inl"
#include <thrift/lib/cpp2/protocol/Serializer.h>
#include "vals.h"
#include "wire.h"
#include "wirevals.h"
using mc::Ctx;
using namespace nebula;
using wire::Node; using wire::nodeOf;

static const std::vector<std::string>& leaves() {
    static std::vector<std::string> v;
    if (v.empty()) {
        v = {"e", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "b0", "b1", "f0", "f-0.0", "f1.5", "f-1e300", "f5e-324", "finf", "f-inf", "fnan", "''", "'a'", "'\\00'", "'\\ff\\00\\80'"};
        for (auto i : {"0", "1", "-1", "63", "-64", "64", "-65", "127", "128", "8191", "8192", "-8193", "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775807", "-9223372036854775808"}) v.push_back(std::string("i") + i);
        for (int n : {126, 127, 128, 129, 16383, 16384}) v.push_back("'" + std::string(n, 'x') + "'");
        for (auto d : {"0,1,1", "0,0,0", "2021,12,31", "-32768,1,1", "32767,12,31", "-1,127,-128", "256,2,3"}) v.push_back(std::string("d(") + d + ")");
        for (auto d : {"0,0,0,0", "23,59,59,999999", "1,2,3,4", "-1,-2,-128,-2147483648", "127,0,1,2147483647", "1,0,0,65536"}) v.push_back(std::string("t(") + d + ")");
        for (auto d : {"0,1,1,0,0,0,0", "2021,12,31,23,59,58,999999", "1,2,3,4,5,6,7", "-32768,-128,127,-1,-2,-3,-2147483648", "32767,127,-128,1,2,3,2147483647", "257,1,1,1,1,1,65537"}) v.push_back(std::string("T(") + d + ")");
    }
    return v;
}
static const std::vector<std::string>& elems() {    // one of each type, for elements
    static const std::vector<std::string> v = {"e", "n0", "n3", "b0", "b1", "i0", "i-5", "i9223372036854775807", "f1.5", "''", "'ab'", "d(2021,2,3)", "t(4,5,6,7)", "T(2021,2,3,4,5,6,7)",
        "[i1,'x']", "[]", "{}", "{'k':i1}", "<>", "<i1>", "V('v')", "V(i1;'t'{'p':i1})", "E('a','b',1,'e',0,{})", "E(i1,i2,-1,'e',5,{'p':'q'})", "P(V('a'))", "P(V('a');(V('b'),1,'e',0,{}))", "D()", "D('c';[i1])"};
    return v;
}
static std::string rep(const std::string& e, int n, const char* open, const char* close) { std::string r = open; for (int i = 0; i < n; ++i) r += (i ? "," : "") + e; return r + close; }
static std::vector<std::string> lists() {
    std::vector<std::string> v = {"[]"}; auto& e = elems();
    for (auto& a : e) v.push_back("[" + a + "]");
    for (int n : {13, 14, 15, 16, 17, 127, 128, 129}) v.push_back(rep("i7", n, "[", "]"));
    for (auto& a : e) for (auto& b : e) v.push_back("[" + a + "," + b + "]");
    return v;
}
static bool hashable(const std::string& s) { return s[0] != '{' && s[0] != '<' && s[0] != 'D'; }
static std::vector<std::string> sets() {
    std::vector<std::string> v = {"<>"}; auto& e = elems();
    for (auto& a : e) { if (!hashable(a)) continue; v.push_back("<" + a + ">"); v.push_back("<" + a + ",i77>"); }
    for (int n : {14, 15, 16, 130}) { std::string r = "<"; for (int i = 0; i < n; ++i) r += "i" + std::to_string(i) + ","; v.push_back(r + ">"); }
    return v;
}
static std::vector<std::string> propss(bool all) {
    std::vector<std::string> v = {"{}"}; auto& e = elems();
    for (auto& a : e) { v.push_back("{'k':" + a + "}"); if (all) { v.push_back("{'':" + a + ",'k2':i2}"); v.push_back("{'a\\00b':" + a + ",'k':e,'l':" + a + "}"); } }
    for (int n : {15, 16, 128}) { std::string r = "{"; for (int i = 0; i < n; ++i) r += "'k" + std::to_string(i) + "':i" + std::to_string(i) + ","; v.push_back(r + "}"); }
    return v;
}
static std::vector<std::string> vertices() {
    std::vector<std::string> v; for (auto& a : elems()) v.push_back("V(" + a + ")");
    for (auto& p : propss(false)) { v.push_back("V('v';'t'" + p + ")"); v.push_back("V(i3;''{};'t2'" + p + ")"); }
    std::string r = "V('v'"; for (int i = 0; i < 16; ++i) r += ";'t" + std::to_string(i) + "'{}"; v.push_back(r + ")");
    return v;
}
static const std::vector<std::string> types = {"0", "1", "-1", "7", "-7", "2147483647", "-2147483648"}, ranks = {"0", "1", "-1", "64", "4294967296", "9223372036854775807", "-9223372036854775808"};
static std::vector<std::string> edges() {
    std::vector<std::string> v;
    for (auto& a : elems()) { v.push_back("E(" + a + ",'d',1,'e',0,{})"); v.push_back("E('s'," + a + ",1,'e',0,{})"); }
    for (auto& t : types) for (auto& r : ranks) v.push_back("E('s','d'," + t + ",'e'," + r + ",{})");
    for (auto& p : propss(false)) v.push_back("E('s','d',-1,''," + ranks[1] + "," + p + ")");
    return v;
}
static std::vector<std::string> paths() {
    std::vector<std::string> v; for (auto& a : elems()) { v.push_back("P(V(" + a + "))"); v.push_back("P(V('s');(V(" + a + "),1,'e',0,{}))"); }
    for (auto& t : types) for (auto& r : ranks) v.push_back("P(V('s';'t'{});(V('d'), " + t + ",'e'," + r + ",{}))");
    for (auto& p : propss(false)) v.push_back("P(V('s');(V('d'),-1,'',1," + p + ");(V('f';'t'{'p':i1}),1,'g',2,{'q':'r'}))");
    for (int n : {14, 15, 16}) { std::string r = "P(V('s')"; for (int i = 0; i < n; ++i) r += ";(V(i" + std::to_string(i) + "),1,'e',0,{})"; v.push_back(r + ")"); }
    for (auto& s : v) s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
    return v;
}
static std::vector<std::string> tables() {
    std::vector<std::string> v = {"D()", "D('a')", "D('')", "D('a','b')", "D('a\\00','a\\00')", "D(;[])", "D('a';[])", "D('a';[];[])"};
    for (auto& a : elems()) { v.push_back("D('c';[" + a + "])"); v.push_back("D('c','d';[" + a + ",i1];['x'," + a + "])"); }
    for (int n : {15, 16}) { v.push_back("D(" + rep("'c'", n, "", "") + ";" + rep("i1", n, "[", "]") + ")"); std::string r = "D('c'"; for (int i = 0; i < n; ++i) r += ";[i" + std::to_string(i) + "]"; v.push_back(r + ")"); }
    return v;
}
static std::vector<std::string> nested() {     // every container in every container, two and three levels
    std::vector<std::string> v, in = {"[i1,'x']", "[]", "{'k':i1}", "<i1>", "V(i1;'t'{'p':i1})", "E(i1,i2,-1,'e',5,{'p':'q'})", "P(V('a');(V('b'),1,'e',0,{}))", "D('c';[i1])", "e", "T(1,2,3,4,5,6,7)"}, mid;
    auto wrap = [](const std::string& a, std::vector<std::string>& out) {
        out.push_back("[i0," + a + "]"); out.push_back("{'k':" + a + "}"); if (hashable(a)) out.push_back("<" + a + ">");
        out.push_back("V('v';'t'{'p':" + a + "})"); out.push_back("E(" + a + ",'d',1,'e',3,{'p':" + a + "})"); out.push_back("P(V('a';'t'{'p':" + a + "});(V(" + a + "),1,'e',0,{'p':" + a + "}))"); out.push_back("D('c';[" + a + "])");
    };
    auto canHash = [](const std::string& s) { return s.find('{') == std::string::npos && s.find('<') == std::string::npos && s.find('D') == std::string::npos; };
    for (auto& a : in) wrap(a, mid);
    v = mid; for (auto& a : mid) { std::vector<std::string> o; wrap(a, o); for (auto& x : o) if (x[0] != '<' || canHash(a)) v.push_back(x); }
    return v;
}
static std::vector<std::string> shorts(std::vector<std::string> v) { std::vector<std::string> r; for (auto& s : v) if (s.size() < 90) r.push_back(s); return r; }

template <class T, class Get> static wire::Type typeOf(const char* name, std::vector<std::string> texts, Get get) {
    auto t = std::make_shared<std::vector<std::string>>(std::move(texts));
    return wire::makeType<T>(name, (int)t->size(), [t](int k) { auto& s = (*t)[k]; return s.size() > 120 ? s.substr(0, 120) + ".." : s; },
        [t, get](int k) { return T(get(vals::parse((*t)[k]))); },
        [](const T& v, bool w) { return nodeOf(v, w); },
        [](const T& a, const T& b) { return wire::canon(nodeOf(a, false)).find("nan") != std::string::npos || a == b; });
}
template <class T> static void addDefault(const char* st) { wire::defaults()[st] = nodeOf(T(), false); }

int main(int argc, char** argv) {
    addDefault<Date>("Date"); addDefault<Time>("Time"); addDefault<DateTime>("DateTime"); addDefault<List>("NList"); addDefault<Map>("NMap"); addDefault<Set>("NSet"); addDefault<DataSet>("DataSet"); addDefault<Tag>("Tag"); addDefault<Vertex>("Vertex"); addDefault<Edge>("Edge"); addDefault<Step>("Step"); addDefault<Path>("Path"); addDefault<HostAddr>("HostAddr"); addDefault<KeyValue>("KeyValue");
    wire::defaults()["Row"] = wire::rowOf(Row());
    std::vector<mc::Scenario> sc;
    auto add = [&](const char* name, wire::Type t, const std::string& bounds, int edits = 12, int full = 1 << 30) {
        auto p = std::make_shared<wire::Type>(std::move(t)); mc::Scenario s; s.name = name; s.bounds = std::to_string(p->values) + " values: " + bounds + "; 3 protocols, written, read in both field orders into new and used objects, each field absent, 20 kinds of foreign field at every position, each field in every other type, every truncation";
        s.body = [p, edits, full](Ctx& c) { wire::test(c, *p, edits, c.thorough() ? 1 << 30 : full); };
        sc.push_back(s);
    };
    auto value = [](Value v) { return v; };
    add("values", typeOf<Value>("Value", leaves(), value), "boundary contents of every simple type");
    add("lists", typeOf<Value>("Value", lists(), value), "lists of 0 to 2 elements of every type, and of lengths around 15 and 128", 4, 37);
    add("sets", typeOf<Value>("Value", sets(), value), "sets", 4, 24);
    add("maps", typeOf<Value>("Value", propss(true), value), "maps", 4, 40);
    add("nested", typeOf<Value>("Value", nested(), value), "every container in every container in every container", 6, 67);
    add("dates", typeOf<Date>("Date", {"d(0,1,1)", "d(0,0,0)", "d(2021,12,31)", "d(-32768,1,1)", "d(32767,12,31)", "d(-1,127,-128)", "d(256,2,3)"}, [](Value v) { return v.getDate(); }), "boundary dates");
    add("times", typeOf<Time>("Time", {"t(0,0,0,0)", "t(23,59,59,999999)", "t(1,2,3,4)", "t(-1,-2,-128,-2147483648)", "t(127,0,1,2147483647)"}, [](Value v) { return v.getTime(); }), "boundary times");
    add("datetimes", typeOf<DateTime>("DateTime", {"T(0,1,1,0,0,0,0)", "T(2021,12,31,23,59,58,999999)", "T(1,2,3,4,5,6,7)", "T(-32768,-128,127,-1,-2,-3,-2147483648)", "T(32767,127,-128,1,2,3,2147483647)"}, [](Value v) { return v.getDateTime(); }), "boundary date-times");
    add("list", typeOf<List>("NList", shorts(lists()), [](Value v) { return v.getList(); }), "lists on their own", 3, 37);
    add("set", typeOf<Set>("NSet", shorts(sets()), [](Value v) { return v.getSet(); }), "sets on their own", 3, 24);
    add("map", typeOf<Map>("NMap", shorts(propss(true)), [](Value v) { return v.getMap(); }), "maps on their own", 3, 40);
    add("vertex", typeOf<Vertex>("Vertex", vertices(), [](Value v) { return v.getVertex(); }), "vertices", 8, 36);
    add("edge", typeOf<Edge>("Edge", edges(), [](Value v) { return v.getEdge(); }), "edges", 3, 24);
    add("path", typeOf<Path>("Path", paths(), [](Value v) { return v.getPath(); }), "paths", 8, 16);
    add("dataset", typeOf<DataSet>("DataSet", tables(), [](Value v) { return v.getDataSet(); }), "tables", 8, 30);
    {
        std::vector<std::string> tg, st; for (auto& p : propss(false)) { tg.push_back("V(e;'t'" + p + ")"); st.push_back("P(V(e);(V('d'),1,'e',1," + p + "))"); }
        for (auto& t : types) for (auto& r : ranks) st.push_back("P(V(e);(V('d';'t'{})," + t + ",'n'," + r + ",{}))");
        add("tag", typeOf<Tag>("Tag", tg, [](Value v) { return v.getVertex().tags[0]; }), "tags", 4, 12);
        add("step", typeOf<Step>("Step", st, [](Value v) { return v.getPath().steps[0]; }), "steps", 5, 14);
    }
    {
        static std::vector<HostAddr> hs; for (std::string h : {std::string(), std::string("h"), std::string("127.0.0.1"), std::string(300, 'h'), std::string("a\0b", 3)}) for (int p : {0, 1, -1, 9779, 65535, INT32_MAX, INT32_MIN}) hs.emplace_back(h, p);
        static std::vector<KeyValue> kv; for (std::string a : {std::string(), std::string("k"), std::string(200, 'k'), std::string("\0\xff", 2)}) for (std::string b : {std::string(), std::string("v"), std::string(200, 'v')}) kv.emplace_back(std::make_pair(a, b));
        add("host address", wire::makeType<HostAddr>("HostAddr", (int)hs.size(), [](int k) { return hs[k].host + ":" + std::to_string(hs[k].port); }, [](int k) { return hs[k]; }, [](const HostAddr& v, bool) { return nodeOf(v, false); }, [](const HostAddr& a, const HostAddr& b) { return a.host == b.host && a.port == b.port; }), "host addresses");
        add("key-value", wire::makeType<KeyValue>("KeyValue", (int)kv.size(), [](int k) { return kv[k].key + "=" + kv[k].value; }, [](int k) { return kv[k]; }, [](const KeyValue& v, bool) { return nodeOf(v, false); }, [](const KeyValue& a, const KeyValue& b) { return a == b; }), "key-value pairs");
    }
    {
        mc::Scenario s; s.name = "null kinds"; s.bounds = "every kind of null against the interface definition's numbers";
        s.body = [](Ctx& c) {
            static const std::vector<std::pair<std::string, NullType>> k = {{"__NULL__", NullType::__NULL__}, {"NaN", NullType::NaN}, {"BAD_DATA", NullType::BAD_DATA}, {"BAD_TYPE", NullType::BAD_TYPE}, {"ERR_OVERFLOW", NullType::ERR_OVERFLOW}, {"UNKNOWN_PROP", NullType::UNKNOWN_PROP}, {"DIV_BY_ZERO", NullType::DIV_BY_ZERO}, {"OUT_OF_RANGE", NullType::OUT_OF_RANGE}};
            int i = c.choose((int)k.size()); bool found = false;
            for (auto& e : IDL_ENUMS) if (std::string(e.type_) == "NullType" && k[i].first == e.name) { found = true; MC_CHECK(c, e.value == (long)k[i].second, "null kind", "null kind " << e.name << " is " << (long)k[i].second << ", published as " << e.value); }
            MC_CHECK(c, found, "null kind unpublished", k[i].first << " is not in the interface definition");
            Value v(k[i].second); std::string o = wire::encode(nodeOf(v, false), wire::COMPACT); c.state(o); c.step(); c.outcome("kind");
        };
        sc.push_back(s);
    }
    return mc::run(argc, argv, "C27", sc, {"an edge's type is reduced to its direction (+1, 0, -1) when it is written, as the code documents", "sets hold values that can be hashed", "a union on the wire holds at most one field"});
}
