// The fields of the server's response records with the contents the checks give them.
#pragma once
#include "common/graph/Response.h"
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>
using namespace nebula;

// A field of a response type: a number of distinct contents, a way to set each.
template <class T> struct Field { std::string name; int n; std::function<void(T&, int)> set; };
template <class T> using Fields = std::vector<Field<T>>;
template <class V> std::unique_ptr<V> P(V v) { return std::unique_ptr<V>(new V(std::move(v))); }

static std::vector<std::string> texts() { return {"", "a", "b", std::string(60, 'x'), std::string(60, 'x') + "y", std::string("a\0", 2), "A"}; }
template <class T> Field<T> str(const char* n, std::string T::*f) { return {n, 7, [f](T& t, int k) { t.*f = texts()[k]; }}; }
template <class T> Field<T> ostr(const char* n, std::unique_ptr<std::string> T::*f) { return {n, 8, [f](T& t, int k) { if (k) t.*f = P(texts()[k - 1]); else (t.*f).reset(); }}; }
template <class T, class I> Field<T> num(const char* n, I T::*f, std::vector<I> v) { return {n, (int)v.size(), [f, v](T& t, int k) { t.*f = v[k]; }}; }
template <class T, class I> Field<T> onum(const char* n, std::unique_ptr<I> T::*f) {
    return {n, 6, [f](T& t, int k) { static const std::vector<I> v = {0, 1, -1, std::numeric_limits<I>::max(), std::numeric_limits<I>::min()}; if (k) t.*f = P<I>(v[k - 1]); else (t.*f).reset(); }};
}
static const std::vector<ErrorCode> codes = {ErrorCode::SUCCEEDED, ErrorCode::E_SESSION_INVALID, ErrorCode::E_UNKNOWN, ErrorCode::E_DISCONNECTED};
static const std::vector<int64_t> i64s = {0, 1, -1, 1LL << 32, INT64_MAX, INT64_MIN};
static const std::vector<int32_t> i32s = {0, 1, -1, INT32_MAX, INT32_MIN};

template <class T> Fields<T> fieldsOf();
// a value of a nested type: content k of a small set of distinct ones (0 = as constructed)
template <class T> T nested(int k) { T t; auto fs = fieldsOf<T>(); if (k) { auto& f = fs[(k - 1) % fs.size()]; int v = 1 + (k - 1) / (int)fs.size(); f.set(t, v % f.n); if (v >= f.n) fs[k % fs.size()].set(t, 1); } return t; }
template <class T> int nestedCount() { int n = 1; for (auto& f : fieldsOf<T>()) { (void)f; ++n; } return n; }    // as constructed, and each field once non-default
// Field content for a vector of nested records: none, one default, each single change in one of two elements
template <class T> int vecCount() { return 4 + 2 * (nestedCount<T>() - 1); }
template <class T> std::vector<T> vec(int k) {
    std::vector<T> v;
    if (k == 0) return v;
    if (k == 1) { v.push_back(T()); return v; }
    if (k == 2) { v.push_back(T()); v.push_back(T()); return v; }
    if (k == 3) { v.push_back(T()); v.push_back(T()); v.push_back(T()); return v; }
    k -= 4; int n = nestedCount<T>() - 1;
    v.push_back(nested<T>(k < n ? k + 1 : 0)); v.push_back(nested<T>(k < n ? 0 : k - n + 1));
    return v;
}

template <> Fields<AuthResponse> fieldsOf() { return { num("errorCode", &AuthResponse::errorCode, codes), onum("sessionId", &AuthResponse::sessionId), ostr("errorMsg", &AuthResponse::errorMsg),
    onum("timeZoneOffsetSeconds", &AuthResponse::timeZoneOffsetSeconds), ostr("timeZoneName", &AuthResponse::timeZoneName) }; }
template <> Fields<ProfilingStats> fieldsOf() { typedef ProfilingStats T; return { num("rows", &T::rows, i64s), num("execDurationInUs", &T::execDurationInUs, i64s), num("totalDurationInUs", &T::totalDurationInUs, i64s),
    {"otherStats", 7, [](T& t, int k) { typedef std::unordered_map<std::string, std::string> M;
        if (k == 0) t.otherStats.reset(); else if (k == 1) t.otherStats = P(M{}); else if (k == 2) t.otherStats = P(M{{"a", "1"}}); else if (k == 3) t.otherStats = P(M{{"a", "2"}}); else if (k == 4) t.otherStats = P(M{{"b", "1"}}); else if (k == 5) t.otherStats = P(M{{"a", "1"}, {"b", "1"}}); else t.otherStats = P(M{{"a", ""}}); }} }; }
template <> Fields<PlanNodeBranchInfo> fieldsOf() { typedef PlanNodeBranchInfo T; return { {"isDoBranch", 2, [](T& t, int k) { t.isDoBranch = k; }}, num("conditionNodeId", &T::conditionNodeId, {-1, 0, 1, 1LL << 32, INT64_MAX, INT64_MIN}) }; }
template <> Fields<Pair> fieldsOf() { return { str("key", &Pair::key), str("value", &Pair::value) }; }
template <> Fields<PlanNodeDescription> fieldsOf() { typedef PlanNodeDescription T; return {
    str("name", &T::name), num("id", &T::id, {-1, 0, 1, 1LL << 32, INT64_MAX, INT64_MIN}), str("outputVar", &T::outputVar),
    {"description", 1 + vecCount<Pair>(), [](T& t, int k) { if (k) t.description = P(vec<Pair>(k - 1)); else t.description.reset(); }},
    {"profiles", 1 + vecCount<ProfilingStats>(), [](T& t, int k) { if (k) t.profiles = P(vec<ProfilingStats>(k - 1)); else t.profiles.reset(); }},
    {"branchInfo", 1 + nestedCount<PlanNodeBranchInfo>(), [](T& t, int k) { if (k) t.branchInfo = P(nested<PlanNodeBranchInfo>(k - 1)); else t.branchInfo.reset(); }},
    {"dependencies", 7, [](T& t, int k) { typedef std::vector<int64_t> V; static const std::vector<V> v = {{}, {0}, {1}, {1, 2}, {2, 1}, {1, 2, 2}}; if (k) t.dependencies = P(v[k - 1]); else t.dependencies.reset(); }} }; }
template <> Fields<PlanDescription> fieldsOf() { typedef PlanDescription T; return {
    {"planNodeDescs", vecCount<PlanNodeDescription>(), [](T& t, int k) { t.planNodeDescs = vec<PlanNodeDescription>(k); }},
    {"nodeIndexMap", 6, [](T& t, int k) { static const std::vector<std::unordered_map<int64_t, int64_t>> v = {{}, {{0, 0}}, {{0, 1}}, {{1, 0}}, {{0, 0}, {1, 1}}, {{1LL << 32, 0}}}; t.nodeIndexMap = v[k]; }},
    str("format", &T::format), num("optimize_time_in_us", &T::optimize_time_in_us, i32s) }; }
static DataSet ds(int k) { DataSet d; if (k >= 1) d.colNames = {"c1"}; if (k == 2) d.colNames = {"c2"}; if (k == 3) d.colNames = {"c1", "c2"}; if (k >= 4) d.rows.emplace_back(); if (k >= 5) d.rows.emplace_back(); return d; }
template <> Fields<ExecutionResponse> fieldsOf() { typedef ExecutionResponse T; return {
    num("errorCode", &T::errorCode, codes), num("latencyInUs", &T::latencyInUs, i32s),
    {"data", 7, [](T& t, int k) { if (k) t.data = P(ds(k - 1)); else t.data.reset(); }},
    ostr("spaceName", &T::spaceName), ostr("errorMsg", &T::errorMsg),
    {"planDesc", 1 + nestedCount<PlanDescription>() + 5, [](T& t, int k) { if (k) t.planDesc = P(nested<PlanDescription>(k - 1)); else t.planDesc.reset(); }},
    ostr("comment", &T::comment) }; }
