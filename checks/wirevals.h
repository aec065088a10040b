// The data structures as trees of interface definition fields, through their public members.
#pragma once
#include "wire.h"
#include "common/datatypes/HostAddr.h"
#include "common/datatypes/KeyValue.h"
namespace wire {
using namespace nebula;
inline Node nodeOf(const Value& v, bool w);
inline Node nodeOf(const Tag& t, bool w);
inline Node nodeOf(const Step& t, bool w);
template <class M> Node propsOf(const M& m, bool w) { std::vector<Node> k; for (auto& e : m) { k.push_back(str(e.first)); k.push_back(nodeOf(e.second, w)); } return seq(k); }
template <class V> Node valuesOf(const V& m, bool w) { std::vector<Node> k; for (auto& e : m) k.push_back(nodeOf(e, w)); return seq(k); }
inline int64_t direction(int64_t t, bool w) { return !w ? t : t > 0 ? 1 : t < 0 ? -1 : 0; }
inline Node nodeOf(const Date& d, bool) { return Struct("Date").f("year", num(d.year)).f("month", num(d.month)).f("day", num(d.day)); }
inline Node nodeOf(const Time& d, bool) { return Struct("Time").f("hour", num(d.hour)).f("minute", num(d.minute)).f("sec", num(d.sec)).f("microsec", num(d.microsec)); }
inline Node nodeOf(const DateTime& d, bool) { return Struct("DateTime").f("year", num(d.year)).f("month", num(d.month)).f("day", num(d.day)).f("hour", num(d.hour)).f("minute", num(d.minute)).f("sec", num(d.sec)).f("microsec", num(d.microsec)); }
inline Node nodeOf(const Tag& t, bool w) { return Struct("Tag").f("name", str(t.name)).f("props", propsOf(t.props, w)); }
inline Node nodeOf(const Vertex& v, bool w) { return Struct("Vertex").f("vid", nodeOf(v.vid, w)).f("tags", valuesOf(v.tags, w)); }
inline Node nodeOf(const Edge& e, bool w) { return Struct("Edge").f("src", nodeOf(e.src, w)).f("dst", nodeOf(e.dst, w)).f("type", num(direction(e.type, w))).f("name", str(e.name)).f("ranking", num(e.ranking)).f("props", propsOf(e.props, w)); }
inline Node nodeOf(const Step& e, bool w) { return Struct("Step").f("dst", nodeOf(e.dst, w)).f("type", num(direction(e.type, w))).f("name", str(e.name)).f("ranking", num(e.ranking)).f("props", propsOf(e.props, w)); }
inline Node nodeOf(const Path& p, bool w) { return Struct("Path").f("src", nodeOf(p.src, w)).f("steps", valuesOf(p.steps, w)); }
inline Node nodeOf(const List& l, bool w) { return Struct("NList").f("values", valuesOf(l.values, w)); }
inline Node rowOf(const List& l, bool w = false) { return Struct("Row").f("values", valuesOf(l.values, w)); }
inline Node nodeOf(const Map& m, bool w) { return Struct("NMap").f("kvs", propsOf(m.kvs, w)); }
inline Node nodeOf(const Set& s, bool w) { return Struct("NSet").f("values", valuesOf(s.values, w)); }
inline Node nodeOf(const DataSet& d, bool w) { std::vector<Node> c, r; for (auto& e : d.colNames) c.push_back(str(e)); for (auto& e : d.rows) r.push_back(rowOf(e, w)); return Struct("DataSet").f("column_names", seq(c)).f("rows", seq(r)); }
inline Node nodeOf(const HostAddr& h, bool) { return Struct("HostAddr").f("host", str(h.host)).f("port", num(h.port)); }
inline Node nodeOf(const KeyValue& h, bool) { return Struct("KeyValue").f("key", str(h.key)).f("value", str(h.value)); }
inline Node nodeOf(const Value& v, bool w) {
    typedef Value::Type VT;
    Struct s("Value");
    switch (v.type()) {
        case VT::__EMPTY__: break;
        case VT::NULLVALUE: s.f("nVal", num((int64_t)v.getNull())); break;
        case VT::BOOL: s.f("bVal", num(v.getBool())); break;
        case VT::INT: s.f("iVal", num(v.getInt())); break;
        case VT::FLOAT: s.f("fVal", dbl(v.getFloat())); break;
        case VT::STRING: s.f("sVal", str(v.getStr())); break;
        case VT::DATE: s.f("dVal", nodeOf(v.getDate(), w)); break;
        case VT::TIME: s.f("tVal", nodeOf(v.getTime(), w)); break;
        case VT::DATETIME: s.f("dtVal", nodeOf(v.getDateTime(), w)); break;
        case VT::VERTEX: s.f("vVal", nodeOf(v.getVertex(), w)); break;
        case VT::EDGE: s.f("eVal", nodeOf(v.getEdge(), w)); break;
        case VT::PATH: s.f("pVal", nodeOf(v.getPath(), w)); break;
        case VT::LIST: s.f("lVal", nodeOf(v.getList(), w)); break;
        case VT::MAP: s.f("mVal", nodeOf(v.getMap(), w)); break;
        case VT::SET: s.f("uVal", nodeOf(v.getSet(), w)); break;
        case VT::DATASET: s.f("gVal", nodeOf(v.getDataSet(), w)); break;
        default: throw Bad{"value type " + std::to_string((uint64_t)v.type())};
    }
    return s;
}
}  // namespace wire
