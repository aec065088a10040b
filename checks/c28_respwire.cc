// C28: the wire form of server responses, against an encoder and a decoder built from the interface definition.
#include "mc.h"
#include "common/base/Base.h"
#include "common/datatypes/CommonCpp2Ops.h"
#include "common/graph/GraphCpp2Ops.h"
#include "common/datatypes/DataSetOps.inl"
#include "common/datatypes/DateOps.inl"
#include "common/datatypes/EdgeOps.inl"
#include "common/datatypes/ListOps.inl"
#include "common/datatypes/MapOps.inl"
#include "common/datatypes/PathOps.inl"
#include "common/datatypes/SetOps.inl"
#include "common/datatypes/ValueOps.inl"
#include "common/datatypes/VertexOps.inl"
#include "common/graph/AuthResponseOps.inl"
#include "common/graph/ExecutionResponseOps.inl"
#include "common/graph/PairOps.inl"
#include "common/graph/PlanDescriptionOps.inl"
#include "common/graph/PlanNodeBranchInfoOps.inl"
#include "common/graph/PlanNodeDescriptionOps.inl"
#include "common/graph/ProfilingStatsOps.inl"
#include <thrift/lib/cpp2/protocol/Serializer.h>
#include "vals.h"
#include "wire.h"
#include "wirevals.h"
#include "respfields.h"
using mc::Ctx;
using wire::Node; using wire::Struct; using wire::num; using wire::str; using wire::seq; using wire::nodeOf;

static Node bytesMap(const std::unordered_map<std::string, std::string>& m) { std::vector<Node> k; for (auto& e : m) { k.push_back(str(e.first)); k.push_back(str(e.second)); } return seq(k); }
static Node of(const AuthResponse& r, bool) {
    Struct s("AuthResponse"); s.f("error_code", num((int)r.errorCode));
    if (r.errorMsg) s.f("error_msg", str(*r.errorMsg));
    if (r.sessionId) s.f("session_id", num(*r.sessionId));
    if (r.timeZoneOffsetSeconds) s.f("time_zone_offset_seconds", num(*r.timeZoneOffsetSeconds));
    if (r.timeZoneName) s.f("time_zone_name", str(*r.timeZoneName));
    return s;
}
static Node of(const Pair& r, bool) { return Struct("Pair").f("key", str(r.key)).f("value", str(r.value)); }
static Node of(const PlanNodeBranchInfo& r, bool) { return Struct("PlanNodeBranchInfo").f("is_do_branch", num(r.isDoBranch)).f("condition_node_id", num(r.conditionNodeId)); }
static Node of(const ProfilingStats& r, bool) {
    Struct s("ProfilingStats"); s.f("rows", num(r.rows)).f("exec_duration_in_us", num(r.execDurationInUs)).f("total_duration_in_us", num(r.totalDurationInUs));
    if (r.otherStats) s.f("other_stats", bytesMap(*r.otherStats));
    return s;
}
static Node of(const PlanNodeDescription& r, bool w);
template <class V> static Node each(const V& v, bool w) { std::vector<Node> k; for (auto& e : v) k.push_back(of(e, w)); return seq(k); }
static Node of(const PlanNodeDescription& r, bool w) {
    Struct s("PlanNodeDescription"); s.f("name", str(r.name)).f("id", num(r.id)).f("output_var", str(r.outputVar));
    if (r.description) s.f("description", each(*r.description, w));
    if (r.profiles) s.f("profiles", each(*r.profiles, w));
    if (r.branchInfo) s.f("branch_info", of(*r.branchInfo, w));
    if (r.dependencies) { std::vector<Node> k; for (auto i : *r.dependencies) k.push_back(num(i)); s.f("dependencies", seq(k)); }
    return s;
}
static Node of(const PlanDescription& r, bool w) {
    std::vector<Node> m; for (auto& e : r.nodeIndexMap) { m.push_back(num(e.first)); m.push_back(num(e.second)); }
    return Struct("PlanDescription").f("plan_node_descs", each(r.planNodeDescs, w)).f("node_index_map", seq(m)).f("format", str(r.format)).f("optimize_time_in_us", num(r.optimize_time_in_us));
}
static Node of(const ExecutionResponse& r, bool w) {
    Struct s("ExecutionResponse"); s.f("error_code", num((int)r.errorCode)).f("latency_in_us", num(r.latencyInUs));
    if (r.data) s.f("data", nodeOf(*r.data, w));
    if (r.spaceName) s.f("space_name", str(*r.spaceName));
    if (r.errorMsg) s.f("error_msg", str(*r.errorMsg));
    if (r.planDesc) s.f("plan_desc", of(*r.planDesc, w));
    if (r.comment) s.f("comment", str(*r.comment));
    return s;
}

// value k: every field with every content over three backgrounds (all default, all last, all middle contents), every pair of
// fields with their boundary contents, and every subset of the fields non-default
template <class T> struct Values {
    std::vector<std::vector<int>> v;      // content of each field
    Fields<T> fs = fieldsOf<T>();
    Values() {
        int n = (int)fs.size();
        auto bgOf = [&](int b) { std::vector<int> r; for (auto& f : fs) r.push_back(b == 0 ? 0 : b == 1 ? f.n - 1 : f.n / 2); return r; };
        for (int sub = 0; sub < 1 << n; ++sub) { auto r = bgOf(0); for (int i = 0; i < n; ++i) if (sub >> i & 1) r[i] = 1 + i % std::max(1, fs[i].n - 1); v.push_back(r); }
        first = (int)v.size();
        for (int b = 0; b < 3; ++b) for (int i = 0; i < n; ++i) for (int k = 0; k < fs[i].n; ++k) { auto r = bgOf(b); r[i] = k; v.push_back(r); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int a = 0; a < std::min(fs[i].n, 6); ++a) for (int b = 0; b < std::min(fs[j].n, 6); ++b) { auto r = bgOf(0); r[i] = fs[i].n - 1 - a; r[j] = fs[j].n - 1 - b; v.push_back(r); }
        full = (int)v.size();
    }
    int first, full;
    T make(int k) const { T t; for (size_t i = 0; i < fs.size(); ++i) fs[i].set(t, v[k][i]); return t; }
    std::string say(int k) const { std::string r; for (size_t i = 0; i < fs.size(); ++i) r += fs[i].name + "#" + std::to_string(v[k][i]) + " "; return r; }
};
template <class T> static wire::Type typeOf(const char* name, std::shared_ptr<Values<T>> vs) {
    return wire::makeType<T>(name, (int)vs->v.size(), [vs](int k) { return vs->say(k); }, [vs](int k) { return vs->make(k); }, [](const T& v, bool w) { return of(v, w); }, [](const T& a, const T& b) { return a == b; });
}
int main(int argc, char** argv) {
    wire::defaults()["Date"] = nodeOf(Date(), false); wire::defaults()["DataSet"] = nodeOf(DataSet(), false); wire::defaults()["Row"] = wire::rowOf(Row());
    std::vector<mc::Scenario> sc;
    auto add = [&](const char* name, auto tag, int edits, int full) {
        typedef typename decltype(tag)::type T;
        auto vs = std::make_shared<Values<T>>(); auto p = std::make_shared<wire::Type>(typeOf<T>(name, vs)); mc::Scenario s; s.name = name;
        s.bounds = std::to_string(p->values) + " values: every subset of the fields, every content of every field over three backgrounds, boundary contents in pairs; 3 protocols, written, read in both field orders into new and used objects, each field absent, 20 kinds of foreign field at every position, each field in every other type, every truncation";
        s.body = [p, edits, full](Ctx& c) { wire::test(c, *p, edits, c.thorough() ? 1 << 30 : full); };
        sc.push_back(s);
    };
    struct A { typedef AuthResponse type; }; struct B { typedef Pair type; }; struct C { typedef PlanNodeBranchInfo type; }; struct D { typedef ProfilingStats type; }; struct E { typedef PlanNodeDescription type; }; struct F { typedef PlanDescription type; }; struct G { typedef ExecutionResponse type; };
    add("AuthResponse", A(), 4, 60); add("Pair", B(), 4, 40); add("PlanNodeBranchInfo", C(), 4, 40); add("ProfilingStats", D(), 4, 40);
    add("PlanNodeDescription", E(), 6, 40); add("PlanDescription", F(), 6, 24); add("ExecutionResponse", G(), 8, 128);
    return mc::run(argc, argv, "C28", sc, {"an error code is any 32-bit number", "a union on the wire holds at most one field"});
}
