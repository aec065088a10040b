// Dynamic values written as text: parse() builds one through the public constructors, repr() reads one back
// through the public accessors only (no comparison, hash or print function of the code under test).
//   e  n<k>  b0/b1  i<int>  f<float>  'text'  d(y,m,d)  t(h,m,s,u)  T(y,m,d,h,m,s,u)  [a,b]  {'k':v}  <a,b>
//   V(vid;'tag'{...};...)  E(src,dst,type,'name',rank,{...})  P(V(...);(V(...),type,'name',rank,{...});...)  D('c','d';[..];[..])
#pragma once
#include "common/datatypes/DataSet.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Vertex.h"
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>
namespace vals {
using namespace nebula;
typedef Value::Type VT;
inline std::string quote(const std::string& s) {
    std::string r = "'"; char b[8];
    for (unsigned char c : s) if (c < 32 || c > 126 || c == '\'' || c == '\\') { snprintf(b, sizeof b, "\\%02x", c); r += b; } else r += (char)c;
    return r + "'";
}
inline std::string repr(const Value& v);
inline std::string join(std::vector<std::string> v, bool sort, const char* sep = ",") { if (sort) std::sort(v.begin(), v.end()); std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? sep : "") + v[i]; return r; }
template <class M> std::string reprProps(const M& m) { std::vector<std::string> p; for (auto& e : m) p.push_back(quote(e.first) + ":" + repr(e.second)); return "{" + join(p, true) + "}"; }
inline std::string repr(const Date& d) { return "d(" + std::to_string(d.year) + "," + std::to_string(d.month) + "," + std::to_string(d.day) + ")"; }
inline std::string repr(const Time& t) { return "t(" + std::to_string(t.hour) + "," + std::to_string(t.minute) + "," + std::to_string(t.sec) + "," + std::to_string(t.microsec) + ")"; }
inline std::string repr(const DateTime& t) { return "T(" + std::to_string(t.year) + "," + std::to_string(t.month) + "," + std::to_string(t.day) + "," + std::to_string(t.hour) + "," + std::to_string(t.minute) + "," + std::to_string(t.sec) + "," + std::to_string(t.microsec) + ")"; }
inline std::string repr(const Vertex& x) { std::string r = "V(" + repr(x.vid); for (auto& t : x.tags) r += ";" + quote(t.name) + reprProps(t.props); return r + ")"; }
inline std::string repr(const Edge& x) { return "E(" + repr(x.src) + "," + repr(x.dst) + "," + std::to_string(x.type) + "," + quote(x.name) + "," + std::to_string(x.ranking) + "," + reprProps(x.props) + ")"; }
inline std::string repr(const Step& s) { return "(" + repr(s.dst) + "," + std::to_string(s.type) + "," + quote(s.name) + "," + std::to_string(s.ranking) + "," + reprProps(s.props) + ")"; }
inline std::string repr(const Path& x) { std::string r = "P(" + repr(x.src); for (auto& s : x.steps) r += ";" + repr(s); return r + ")"; }
inline std::string repr(const List& x) { std::vector<std::string> p; for (auto& e : x.values) p.push_back(repr(e)); return "[" + join(p, false) + "]"; }
inline std::string repr(const Map& x) { return reprProps(x.kvs); }
inline std::string repr(const Set& x) { std::vector<std::string> p; for (auto& e : x.values) p.push_back(repr(e)); return "<" + join(p, true) + ">"; }
inline std::string repr(const DataSet& x) { std::vector<std::string> p; for (auto& e : x.colNames) p.push_back(quote(e)); std::string r = "D(" + join(p, false); for (auto& e : x.rows) r += ";" + repr(e); return r + ")"; }
inline std::string reprFloat(double d) { if (std::isnan(d)) return "fnan"; char b[40]; snprintf(b, sizeof b, "f%.17g", d); return b; }
inline std::string repr(const Value& v) {
    switch (v.type()) {
        case VT::__EMPTY__: return "e";
        case VT::NULLVALUE: return "n" + std::to_string((int)v.getNull());
        case VT::BOOL: return v.getBool() ? "b1" : "b0";
        case VT::INT: return "i" + std::to_string(v.getInt());
        case VT::FLOAT: return reprFloat(v.getFloat());
        case VT::STRING: return quote(v.getStr());
        case VT::DATE: return repr(v.getDate());
        case VT::TIME: return repr(v.getTime());
        case VT::DATETIME: return repr(v.getDateTime());
        case VT::VERTEX: return repr(v.getVertex());
        case VT::EDGE: return repr(v.getEdge());
        case VT::PATH: return repr(v.getPath());
        case VT::LIST: return repr(v.getList());
        case VT::MAP: return repr(v.getMap());
        case VT::SET: return repr(v.getSet());
        case VT::DATASET: return repr(v.getDataSet());
    }
    return "?type" + std::to_string((uint64_t)v.type());
}
struct Parser {
    const char* p;
    explicit Parser(const char* s) : p(s) {}
    void need(char c) { if (*p != c) { fprintf(stderr, "bad value text at '%s', wanted %c\n", p, c); abort(); } ++p; }
    bool got(char c) { if (*p == c) { ++p; return true; } return false; }
    std::string str() { need('\''); std::string r; while (*p != '\'') { if (*p == '\\') { r += (char)strtol(std::string(p + 1, 2).c_str(), nullptr, 16); p += 3; } else r += *p++; } ++p; return r; }
    long num() { char* e; long v = strtol(p, &e, 10); p = e; return v; }
    std::vector<Value> seq(char open, char close) { need(open); std::vector<Value> r; while (!got(close)) { r.push_back(val()); got(','); } return r; }
    std::unordered_map<std::string, Value> props() { need('{'); std::unordered_map<std::string, Value> m; while (!got('}')) { std::string k = str(); need(':'); m.emplace(k, val()); got(','); } return m; }
    Vertex vertex() { need('V'); need('('); Vertex v; v.vid = val(); while (got(';')) { std::string n = str(); v.tags.emplace_back(n, props()); } need(')'); return v; }
    Step step() { need('('); Step s; s.dst = vertex(); need(','); s.type = (EdgeType)num(); need(','); s.name = str(); need(','); s.ranking = num(); need(','); s.props = props(); need(')'); return s; }
    std::vector<long> nums(char c) { need(c); need('('); std::vector<long> r; do r.push_back(num()); while (got(',')); need(')'); return r; }
    Value val() {
        switch (*p) {
            case 'e': ++p; return Value();
            case 'n': { ++p; return Value((NullType)num()); }
            case 'b': { ++p; return Value(num() != 0); }
            case 'i': { ++p; return Value((int64_t)num()); }
            case 'f': { ++p; char* e; double d = strtod(p, &e); p = e; return Value(d); }
            case '\'': return Value(str());
            case 'd': { auto n = nums('d'); Date d; d.year = n[0]; d.month = n[1]; d.day = n[2]; return Value(d); }
            case 't': { auto n = nums('t'); Time t; t.hour = n[0]; t.minute = n[1]; t.sec = n[2]; t.microsec = n[3]; return Value(t); }
            case 'T': { auto n = nums('T'); DateTime t; t.year = n[0]; t.month = n[1]; t.day = n[2]; t.hour = n[3]; t.minute = n[4]; t.sec = n[5]; t.microsec = n[6]; return Value(t); }
            case '[': return Value(List(seq('[', ']')));
            case '<': { Set s; for (auto& e : seq('<', '>')) s.values.emplace(std::move(e)); return Value(std::move(s)); }
            case '{': { Map m; m.kvs = props(); return Value(std::move(m)); }
            case 'V': return Value(vertex());
            case 'E': { ++p; need('('); Edge e; e.src = val(); need(','); e.dst = val(); need(','); e.type = (EdgeType)num(); need(','); e.name = str(); need(','); e.ranking = num(); need(','); e.props = props(); need(')'); return Value(std::move(e)); }
            case 'P': { ++p; need('('); Path x; x.src = vertex(); while (got(';')) x.steps.push_back(step()); need(')'); return Value(std::move(x)); }
            case 'D': { ++p; need('('); DataSet d; while (*p == '\'') { d.colNames.push_back(str()); got(','); } while (got(';')) { Row r; r.values = seq('[', ']'); d.rows.push_back(std::move(r)); } need(')'); return Value(std::move(d)); }
        }
        fprintf(stderr, "bad value text at '%s'\n", p); abort();
    }
};
inline Value parse(const std::string& s) { Parser q(s.c_str()); Value v = q.val(); if (*q.p) { fprintf(stderr, "trailing value text '%s'\n", q.p); abort(); } return v; }
}  // namespace vals
