// C12: equality and clearing of server responses, one field at a time and in pairs.
#include "mc.h"
#include "common/graph/Response.h"
#include "respfields.h"
using mc::Ctx;
using namespace nebula;

template <class T> void eq(Ctx& c, const char* ty, const T& a, const T& b, bool want, const std::string& how) {
    bool x = a == b, y = b == a;
    MC_CHECK(c, x == want, std::string(ty) + "==", "two " << ty << " values compare " << (x ? "equal" : "unequal") << ": " << how);
    MC_CHECK(c, y == want, std::string(ty) + "==", "two " << ty << " values compare " << (y ? "equal" : "unequal") << " the other way round: " << how);
    c.step(2);
}

// Two responses that agree in every field but `f`; the rest as content `bg` of each field
template <class T> void compare(Ctx& c, const char* ty) {
    auto fs = fieldsOf<T>();
    int fi = c.choose(fs.size());
    auto& f = fs[fi];
    int bgKinds = 4;
    int bg = c.choose(bgKinds);
    int other = c.choose(fs.size());              // one more field takes an unusual content on both sides
    int va = c.choose(f.n);
    MC_LOG(c, ty << "." << f.name << " content " << va << ", others " << bg);
    auto make = [&](int v) {
        T t;
        for (int i = 0; i < (int)fs.size(); ++i) if (i != fi) fs[i].set(t, (bg == 0 ? 0 : bg == 1 ? 1 : bg == 2 ? fs[i].n - 1 : fs[i].n / 2));
        if (other != fi) for (int w = 1; w < 2; ++w) fs[other].set(t, (fs[other].n - 1 + bg) % fs[other].n);
        f.set(t, v);
        return t;
    };
    T a = make(va);
    eq(c, ty, a, a, true, "the same object");
    for (int vb = 0; vb < f.n; ++vb) {
        T b = make(vb);
        eq(c, ty, a, b, va == vb, f.name + (va == vb ? " and all else equal" : " differs (content " + std::to_string(va) + " against " + std::to_string(vb) + ")"));
    }
    // clearing returns to the constructed state, seen through == and through every field
    for (int alias = 0; alias < 2; ++alias) {
        T t = make(va), fresh;
        if (alias) t.clear(); else t.__clear();
        eq(c, ty, t, fresh, true, "cleared against freshly constructed, " + f.name + " had content " + std::to_string(va));
        for (auto& g : fs) for (int v = 0; v < g.n; ++v) {    // any difference that == would not see shows up when one field is set
            T p = make(va); if (alias) p.clear(); else p.__clear();
            T q; g.set(p, v); g.set(q, v);
            eq(c, ty, p, q, true, "cleared and fresh with " + g.name + " set alike");
        }
    }
    c.state(ty + f.name + std::to_string(va) + "/" + std::to_string(bg)); c.outcome(ty + f.name);
}
// two fields changed at the same time never cancel out
template <class T> void pairs(Ctx& c, const char* ty) {
    auto fs = fieldsOf<T>();
    int i = c.choose(fs.size()), j = c.choose(fs.size());
    if (i == j) return;
    auto lim = [&](int k) { return std::min(fs[k].n, c.thorough() ? 40 : 8); };
    int vi = c.choose(lim(i)), vj = c.choose(lim(j));
    T a; fs[i].set(a, vi); fs[j].set(a, vj);
    for (int wi = 0; wi < lim(i); ++wi) for (int wj = 0; wj < lim(j); ++wj) {
        T b; fs[i].set(b, wi); fs[j].set(b, wj);
        eq(c, ty, a, b, vi == wi && vj == wj, fs[i].name + " " + std::to_string(vi) + "/" + std::to_string(wi) + ", " + fs[j].name + " " + std::to_string(vj) + "/" + std::to_string(wj));
    }
    c.state(ty + std::to_string(i * 100 + j) + "," + std::to_string(vi * 100 + vj)); c.outcome(ty);
}
// AuthResponse after clear, field by field, without relying on ==
static void cleared(Ctx& c) {
    AuthResponse a; for (auto& f : fieldsOf<AuthResponse>()) f.set(a, f.n - 1);
    ExecutionResponse e; for (auto& f : fieldsOf<ExecutionResponse>()) f.set(e, f.n - 1);
    PlanDescription p; for (auto& f : fieldsOf<PlanDescription>()) f.set(p, f.n - 1);
    PlanNodeDescription n; for (auto& f : fieldsOf<PlanNodeDescription>()) f.set(n, f.n - 1);
    ProfilingStats s; for (auto& f : fieldsOf<ProfilingStats>()) f.set(s, f.n - 1);
    PlanNodeBranchInfo b; for (auto& f : fieldsOf<PlanNodeBranchInfo>()) f.set(b, f.n - 1);
    Pair k; for (auto& f : fieldsOf<Pair>()) f.set(k, f.n - 1);
    if (c.flip()) { a.clear(); e.clear(); p.clear(); n.clear(); s.clear(); b.clear(); k.clear(); } else { a.__clear(); e.__clear(); p.__clear(); n.__clear(); s.__clear(); b.__clear(); k.__clear(); }
#define F(x) MC_CHECK(c, x, "clear:" #x, "after clear not: " #x); c.step()
    F(a.errorCode == ErrorCode::SUCCEEDED); F(!a.sessionId); F(!a.errorMsg); F(!a.timeZoneOffsetSeconds); F(!a.timeZoneName);
    F(e.errorCode == ErrorCode::SUCCEEDED); F(e.latencyInUs == 0); F(!e.data); F(!e.spaceName); F(!e.errorMsg); F(!e.planDesc); F(!e.comment);
    F(p.planNodeDescs.empty()); F(p.nodeIndexMap.empty()); F(p.format.empty()); F(p.optimize_time_in_us == 0);
    F(n.name.empty()); F(n.id == -1); F(n.outputVar.empty()); F(!n.description); F(!n.profiles); F(!n.branchInfo); F(!n.dependencies);
    F(s.rows == 0); F(s.execDurationInUs == 0); F(s.totalDurationInUs == 0); F(!s.otherStats);
    F(!b.isDoBranch); F(b.conditionNodeId == -1); F(k.key.empty()); F(k.value.empty());
    c.state("c"); c.outcome("c");
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    auto all = [](Ctx& c, bool pr) {
        switch (c.choose(7)) {
            case 0: pr ? pairs<AuthResponse>(c, "AuthResponse") : compare<AuthResponse>(c, "AuthResponse"); break;
            case 1: pr ? pairs<ProfilingStats>(c, "ProfilingStats") : compare<ProfilingStats>(c, "ProfilingStats"); break;
            case 2: pr ? pairs<PlanNodeBranchInfo>(c, "PlanNodeBranchInfo") : compare<PlanNodeBranchInfo>(c, "PlanNodeBranchInfo"); break;
            case 3: pr ? pairs<Pair>(c, "Pair") : compare<Pair>(c, "Pair"); break;
            case 4: pr ? pairs<PlanNodeDescription>(c, "PlanNodeDescription") : compare<PlanNodeDescription>(c, "PlanNodeDescription"); break;
            case 5: pr ? pairs<PlanDescription>(c, "PlanDescription") : compare<PlanDescription>(c, "PlanDescription"); break;
            case 6: pr ? pairs<ExecutionResponse>(c, "ExecutionResponse") : compare<ExecutionResponse>(c, "ExecutionResponse"); break;
        }
    };
    sc.push_back({"one-field", [all](Ctx& c) { all(c, false); }, false, "7 record types x every field x every ordered pair of its contents x 4 backgrounds x one more unusual field, and clearing"});
    sc.push_back({"two-fields", [all](Ctx& c) { all(c, true); }, false, "every pair of fields x every pair of their contents (8 (40) each) on both sides"});
    sc.push_back({"cleared", cleared, false, "every field of every record after clearing"});
    return mc::run(argc, argv, "C12", sc, {"the records have exactly the fields listed in the harness", "query results inside a response: columns and number of rows (their cells are C24)"});
}
