// What equality and order of dynamic values should be, written over their public content only.
#pragma once
#include "vals.h"
namespace valrel {
using namespace nebula; using vals::repr; using vals::VT;
// ---- what the relations should be, over the public content only
inline bool numeric(const Value& v) { return v.type() == VT::INT || v.type() == VT::FLOAT; }
inline double num(const Value& v) { return v.type() == VT::INT ? (double)v.getInt() : v.getFloat(); }
inline bool eq(const Value& a, const Value& b);
inline bool eqProps(const std::unordered_map<std::string, Value>& a, const std::unordered_map<std::string, Value>& b) {
    if (a.size() != b.size()) return false;
    for (auto& e : a) { auto i = b.find(e.first); if (i == b.end() || !eq(e.second, i->second)) return false; }
    return true;
}
inline bool eqSeq(const std::vector<Value>& a, const std::vector<Value>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
inline bool eq(const Vertex& a, const Vertex& b) { if (!eq(a.vid, b.vid) || a.tags.size() != b.tags.size()) return false; for (size_t i = 0; i < a.tags.size(); ++i) if (a.tags[i].name != b.tags[i].name || !eqProps(a.tags[i].props, b.tags[i].props)) return false; return true; }
inline bool eq(const Value& a, const Value& b) {
    VT s = a.type(), t = b.type();
    if (numeric(a) && numeric(b)) { if (s == VT::INT && t == VT::INT) return a.getInt() == b.getInt(); double x = num(a), y = num(b); return x == y || std::fabs(x - y) < 1e-8; }
    if (s != t) return false;
    switch (s) {
        case VT::__EMPTY__: case VT::NULLVALUE: return true;
        case VT::VERTEX: return eq(a.getVertex(), b.getVertex());
        case VT::EDGE: { const Edge &x = a.getEdge(), &y = b.getEdge(); if (x.ranking != y.ranking || !eqProps(x.props, y.props)) return false; if (x.type == y.type) return eq(x.src, y.src) && eq(x.dst, y.dst); return x.type == -y.type && eq(x.src, y.dst) && eq(x.dst, y.src); }
        case VT::PATH: { const Path &x = a.getPath(), &y = b.getPath(); if (!eq(x.src, y.src) || x.steps.size() != y.steps.size()) return false; for (size_t i = 0; i < x.steps.size(); ++i) { auto &p = x.steps[i], &q = y.steps[i]; if (!eq(p.dst, q.dst) || p.type != q.type || p.name != q.name || p.ranking != q.ranking || !eqProps(p.props, q.props)) return false; } return true; }
        case VT::LIST: return eqSeq(a.getList().values, b.getList().values);
        case VT::MAP: return eqProps(a.getMap().kvs, b.getMap().kvs);
        case VT::DATASET: { auto &x = a.getDataSet(), &y = b.getDataSet(); if (x.colNames != y.colNames || x.rows.size() != y.rows.size()) return false; for (size_t i = 0; i < x.rows.size(); ++i) if (!eqSeq(x.rows[i].values, y.rows[i].values)) return false; return true; }
        default: return repr(a) == repr(b);   // booleans, strings, dates, times and sets (of exact values)
    }
}
// -1 before, 0 same place, 1 after; NaN takes no place among numbers
inline int cmp(const Value& a, const Value& b);
inline int cmpV(const Vertex& a, const Vertex& b) { int r = cmp(a.vid, b.vid); if (r) return r; return a.tags.size() < b.tags.size() ? -1 : a.tags.size() > b.tags.size(); }
template <class T> int three(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
inline int cmp(const Value& a, const Value& b) {
    VT s = a.type(), t = b.type();
    if (numeric(a) && numeric(b)) { if (s == VT::INT && t == VT::INT) return three(a.getInt(), b.getInt()); return three(num(a), num(b)); }
    if (s != t) { static const VT O[] = {VT::__EMPTY__, VT::BOOL, VT::INT, VT::FLOAT, VT::STRING, VT::DATE, VT::TIME, VT::DATETIME, VT::VERTEX, VT::EDGE, VT::PATH, VT::LIST, VT::MAP, VT::SET, VT::DATASET, VT::NULLVALUE}; return three(std::find(O, O + 16, s) - O, std::find(O, O + 16, t) - O); }
    switch (s) {
        case VT::BOOL: return three(a.getBool(), b.getBool());
        case VT::STRING: return three(a.getStr(), b.getStr());
        case VT::DATE: { auto x = a.getDate(), y = b.getDate(); return three(std::make_tuple((int)x.year, (int)x.month, (int)x.day), std::make_tuple((int)y.year, (int)y.month, (int)y.day)); }
        case VT::TIME: { auto x = a.getTime(), y = b.getTime(); return three(std::make_tuple((int)x.hour, (int)x.minute, (int)x.sec, (int)x.microsec), std::make_tuple((int)y.hour, (int)y.minute, (int)y.sec, (int)y.microsec)); }
        case VT::DATETIME: { auto x = a.getDateTime(), y = b.getDateTime(); return three(std::make_tuple((int)x.year, (int)x.month, (int)x.day, (int)x.hour, (int)x.minute, (int)x.sec, (int)x.microsec), std::make_tuple((int)y.year, (int)y.month, (int)y.day, (int)y.hour, (int)y.minute, (int)y.sec, (int)y.microsec)); }
        case VT::VERTEX: return cmpV(a.getVertex(), b.getVertex());
        case VT::EDGE: { const Edge &x = a.getEdge(), &y = b.getEdge(); bool fx = x.type > 0, fy = y.type > 0; int r = cmp(fx ? x.src : x.dst, fy ? y.src : y.dst); if (!r) r = cmp(fx ? x.dst : x.src, fy ? y.dst : y.src); if (!r) r = three(std::abs(x.type), std::abs(y.type)); if (!r) r = three(x.ranking, y.ranking); if (!r) r = three(x.props.size(), y.props.size()); return r; }
        case VT::PATH: { const Path &x = a.getPath(), &y = b.getPath(); int r = cmpV(x.src, y.src); for (size_t i = 0; !r && i < x.steps.size() && i < y.steps.size(); ++i) { auto &p = x.steps[i], &q = y.steps[i]; r = cmpV(p.dst, q.dst); if (!r) r = three(p.type, q.type); if (!r) r = three(p.ranking, q.ranking); if (!r) r = three(p.props.size(), q.props.size()); } return r ? r : three(x.steps.size(), y.steps.size()); }
        case VT::LIST: { auto &x = a.getList().values, &y = b.getList().values; int r = 0; for (size_t i = 0; !r && i < x.size() && i < y.size(); ++i) r = cmp(x[i], y[i]); return r ? r : three(x.size(), y.size()); }
        default: return 0;
    }
}
}  // namespace valrel
