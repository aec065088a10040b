// C24: equality, order and hash of dynamic values are coherent on all pairs and triples of an alphabet.
#include "common/base/Base.h"
#include "mc.h"
#include "vals.h"
#include "valrel.h"
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr; using vals::VT; using valrel::eq; using valrel::cmp;

struct Item { Value v; std::string r; bool flt, nan; size_t h = 0; };
static bool any(const std::string& r, const char* set) {   // a constructor letter of `set` outside quotes
    bool q = false; for (size_t i = 0; i < r.size(); ++i) { if (r[i] == '\'') q = !q; else if (!q && strchr(set, r[i]) && (i == 0 || !isalnum((unsigned char)r[i - 1]))) return true; } return false;
}
static std::vector<Item> items(const std::vector<std::string>& a) {
    std::vector<Item> r; for (auto& s : a) { Item i; i.v = parse(s); i.r = s; i.flt = any(s, "f"); i.nan = s.find("fnan") != std::string::npos; i.h = std::hash<Value>()(i.v); r.push_back(std::move(i)); } return r;
}
static void pairLaws(Ctx& c, const Item& x, const Item& y) {
    const Value &a = x.v, &b = y.v; c.log(x.r + " ? " + y.r); c.step();
    bool e = a == b, l = a < b, g = b < a; std::string who = x.r + " and " + y.r;
    MC_CHECK(c, e == eq(a, b), "equal", who << (e ? " compare equal" : " do not compare equal"));
    MC_CHECK(c, e == (b == a), "symmetric", "equality of " << who << " depends on the side");
    MC_CHECK(c, !(l && g), "asymmetric", who << " are each less than the other");
    if (!x.nan && !y.nan) MC_CHECK(c, l == (cmp(a, b) < 0), "less", x.r << (l ? " is less than " : " is not less than ") << y.r);
    MC_CHECK(c, (a != b) == !e && (a > b) == g && (a <= b) == !g && (a >= b) == !l, "derived", "the derived comparisons of " << who << " disagree with == and <");
    if (e && !x.flt && !y.flt) {
        MC_CHECK(c, !l && !g, "equal-less", who << " are equal but one is less");
        MC_CHECK(c, x.h == y.h, "hash", who << " are equal but have different hashes");
    }
    c.state(x.r + (e ? "=" : l ? "<" : g ? ">" : "|") + y.r); c.outcome(std::string(e ? "=" : "") + (l ? "<" : g ? ">" : ""));
}
static void tripleLaws(Ctx& c, const Item& x, const Item& y, const Item& z) {
    if (x.nan || y.nan || z.nan) return;
    if (x.v < y.v && y.v < z.v) MC_CHECK(c, x.v < z.v, "transitive", x.r << " < " << y.r << " < " << z.r << " but the first is not less than the last");
    if (!x.flt && !y.flt && !z.flt && x.v == y.v && y.v == z.v) MC_CHECK(c, x.v == z.v, "equal-transitive", x.r << " = " << y.r << " = " << z.r << " but the first and last differ");
}
static std::vector<mc::Scenario> SC;
static void family(const char* name, std::function<std::vector<std::string>(bool)> gen, const char* bounds) {
    auto cache = std::make_shared<std::vector<Item>>(); auto done = std::make_shared<bool>(false);
    SC.push_back({name, [=](Ctx& c) {
        if (!*done) { *cache = items(gen(c.thorough())); *done = true; }
        auto& I = *cache; int i = c.choose((int)I.size()), j = c.choose((int)I.size());
        pairLaws(c, I[i], I[j]);
        if (i == j) {
            MC_CHECK(c, !(I[i].v < I[i].v), "irreflexive", I[i].r << " is less than itself");
            Value copy(I[i].v), again; again = copy; Value moved(std::move(copy));
            if (!I[i].nan) MC_CHECK(c, I[i].v == moved && I[i].v == again && parse(I[i].r) == I[i].v, "copy", "a copy of " << I[i].r << " is not equal to it");
            MC_CHECK(c, std::hash<Value>()(moved) == I[i].h && std::hash<Value>()(parse(I[i].r)) == I[i].h, "hash", "a copy of " << I[i].r << " has another hash");
        }
        for (auto& z : I) tripleLaws(c, I[i], I[j], z);
        c.step((long)I.size());
    }, false, bounds});
}
int main(int argc, char** argv) {
    family("types", [](bool) { return std::vector<std::string>{
        "e", "n0", "n1", "n3", "n7", "b0", "b1", "i0", "i1", "i-1", "i9223372036854775807", "i-9223372036854775808", "i9007199254740993", "f0", "f-0", "f1", "f1.000000001", "f1.00000002", "f0.5", "f-2.5", "f9007199254740992", "f9.2233720368547758e18", "f-9.2233720368547758e18", "finf", "f-inf", "f1e308", "f5e-324", "fnan",
        "''", "'a'", "'b'", "'ab'", "'a\\00'", "'a\\00b'", "'\\ff'", "'a text that does not fit in place'", "d(2020,2,29)", "d(2020,3,1)", "d(-1,12,31)", "d(2021,1,1)", "d(32767,1,1)", "d(-32768,1,1)", "t(0,0,0,0)", "t(1,0,0,0)", "t(0,1,0,0)", "t(0,0,1,0)", "t(0,0,0,1)", "t(23,59,59,999999)",
        "T(2020,2,29,0,0,0,0)", "T(2020,3,1,0,0,0,0)", "T(2020,2,29,0,0,0,1)", "T(-1,12,31,23,59,59,999999)", "T(2020,2,29,1,0,0,0)", "T(2020,2,29,0,1,0,0)", "T(2020,2,29,0,0,1,0)", "V('a')", "V('b')", "V(i1;'t'{'p':i1})", "V('a';'t'{'p':f1})", "E('a','b',1,'e',0,{})", "E('b','a',-1,'e',0,{})", "E('a','b',2,'e',0,{'w':f0.5})",
        "P(V('a'))", "P(V('a');(V('b'),1,'e',0,{}))", "P(V('b'))", "[]", "[e]", "[n0]", "[n3]", "[i1]", "[f1]", "[i1,i2]", "[[i1]]", "[fnan]", "['a',{'k':i1}]", "{}", "{'k':i1}", "{'k':f1}", "{'l':i1}", "{'k':i1,'l':i2}", "{'l':i2,'k':i1}", "{'k':[i1]}", "<>", "<i1>", "<i1,'a'>", "<'a',i1>", "<i2,'a'>", "<[i1],[i2]>",
        "D()", "D('c')", "D('d')", "D('c';[i1])", "D('c';[i2])", "D('c';[i1];[i2])", "D('c','d';[i1,n0])"}; },
        "all pairs and triples of values of every type, boundary numbers, times and texts");
    family("lists", [](bool t) {
        std::vector<std::string> s = {"e", "n0", "b1", "i0", "i1", "f0.5", "'a'", "'b'", "[i0]"}; if (t) for (auto x : {"n3", "f1", "d(2020,1,1)", "V('a')"}) s.push_back(x);
        std::vector<std::string> r = {"[]"}; for (auto& a : s) r.push_back("[" + a + "]"); for (auto& a : s) for (auto& b : s) r.push_back("[" + a + "," + b + "]"); return r;
    }, "all pairs and triples of lists of up to two of 9 (13) values");
    family("vertices", [](bool) {
        std::vector<std::string> r; for (auto v : {"'a'", "'b'", "i1", "i2", "e", "n0"}) for (auto t : {"", ";'t'{}", ";'t'{'p':i1}", ";'t'{'p':i2}", ";'t'{'q':i1}", ";'u'{}", ";'t'{};'u'{}", ";'u'{};'t'{}", ";'t'{'p':i1};'t'{'p':i1}"}) r.push_back(std::string("V(") + v + t + ")"); return r;
    }, "all pairs and triples of vertices with 6 identities and 9 tag lists");
    family("edges", [](bool) {
        std::vector<std::string> r; for (auto s : {"'a'", "'b'"}) for (auto d : {"'a'", "'b'"}) for (auto t : {"1", "-1", "2", "0"}) for (auto k : {"0", "1", "-1"}) for (auto p : {"{}", "{'p':i1}", "{'p':i2}"}) r.push_back(std::string("E(") + s + "," + d + "," + t + ",'" + (p[1] == '}' ? "e" : "") + "'," + k + "," + p + ")"); return r;
    }, "all pairs and triples of edges with 2 sources, 2 destinations, 4 types, 3 ranks and 3 property sets");
    family("paths", [](bool t) {
        std::vector<std::string> st; for (auto d : {"V('a')", "V('a';'t'{'p':i1})", "V('a';'t'{'p':i2})", "V('b')"}) for (auto ty : {"1", "-1"}) for (auto k : {"0", "1"}) st.push_back(std::string("(") + d + "," + ty + ",'e'," + k + ",{})");
        st.push_back("(V('a'),1,'f',0,{})"); st.push_back("(V('a'),1,'e',0,{'p':i1})"); st.push_back("(V('a'),1,'e',0,{'p':i2})");
        std::vector<std::string> few = {st[0], st[2], st[5], st[8], st[9]}; if (t) { few = st; }
        std::vector<std::string> r; for (auto s : {"V('a')", "V('a';'t'{'p':i1})"}) { r.push_back(std::string("P(") + s + ")"); for (auto& a : st) r.push_back(std::string("P(") + s + ";" + a + ")"); }
        for (auto& a : few) for (auto& b : few) r.push_back("P(V('a');" + a + ";" + b + ")");
        for (auto& a : st) r.push_back("P(V('b');" + a + ")"); return r;
    }, "all pairs and triples of paths over 2 sources and 19 steps, up to two steps");
    family("dates", [](bool t) {
        std::vector<std::string> r; for (auto y : {"2020", "-1", "0"}) for (auto m : {"1", "12"}) for (auto d : {"1", "31"}) r.push_back(std::string("d(") + y + "," + m + "," + d + ")");
        for (auto h : {"0", "23"}) for (auto m : {"0", "59"}) for (auto s : {"0", "59"}) for (auto u : {"0", "1", "999999"}) { r.push_back(std::string("t(") + h + "," + m + "," + s + "," + u + ")"); for (auto d : {"2020,1,31", "2020,12,1", "-1,12,31"}) if (t || strcmp(u, "1")) r.push_back(std::string("T(") + d + "," + h + "," + m + "," + s + "," + u + ")"); } return r;
    }, "all pairs and triples of dates, times and date-times over boundary parts");
    family("containers", [](bool t) {
        std::vector<std::string> e = {"i1", "'a'", "n0", "[i1]", "{'k':i1}", "<i1>"}, r = {"<>", "{}", "D()", "D('c')", "D('c','d')", "D('d','c')", "D('c';[i1])", "D('c';[i1];[i2])", "D('c';[i2];[i1])", "D('c';['a'])"};
        for (auto& a : e) { r.push_back("<" + a + ">"); r.push_back("{'k':" + a + "}"); r.push_back("[<" + a + ">]"); r.push_back("D('c';[" + a + "])"); for (auto& b : e) if (&a != &b) { r.push_back("<" + a + "," + b + ">"); r.push_back("{'k':" + a + ",'l':" + b + "}"); if (t) r.push_back("{'l':" + a + ",'k':" + b + "}"); } }
        r.push_back("<i1,i2,i3,i4>"); r.push_back("<i4,i3,i2,i1>"); r.push_back("<i2,i4,i1,i3>"); r.push_back("{'a':i1,'b':i2,'c':i3}"); r.push_back("{'c':i3,'b':i2,'a':i1}"); r.push_back("<{'a':i1,'b':i2},{'b':i1}>"); r.push_back("<{'b':i1},{'b':i2,'a':i1}>"); return r;
    }, "all pairs and triples of sets, maps and tables of up to two of 6 elements in either order");
    return mc::run(argc, argv, "C24", SC, {"equality of floating-point numbers has a tolerance (1e-8) by design, so laws that tie equality to hash or order are checked for values without floating-point parts; not-a-number takes no place in the order; maps, sets and tables have no order; vertex identities are strings, integers, empty or the plain null"});
}
