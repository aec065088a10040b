// C36: storage requests: each item goes once to the leader of its part, and every host's outcome is accounted for.
#include "storbox.h"
#include "common/base/MurmurHash2.h"
#include <glog/logging.h>
using namespace storbox; using mc::Ctx; using nebula::storage::StorageRpcResponse;
typedef std::function<void(const Value&)> Each;
struct Graph : nebula::storage::GraphStorageClient { using GraphStorageClient::GraphStorageClient; };
// ---- where an item belongs
static string raw(int64_t v) { return string((const char*)&v, 8); }
static int partOf(const string& id, int n) { uint64_t h; if (id.size() == 8) memcpy(&h, id.data(), 8); else { nebula::MurmurHash2 m; h = m(id.c_str()); } return (int)(h % n + 1); }
static const int64_t INTS[] = {0, 1, -1, 5}; static const char* TEXTS[] = {"", "a", "bcdefghi", "Tom Hanks"};
static Value vid(int kind, int i) { return kind == 1 ? Value(INTS[i]) : Value(TEXTS[i]); }
static Value sent(int kind, int i) { return kind == 1 ? Value(raw(INTS[i])) : Value(TEXTS[i]); }
static int partFor(int kind, int i, int n) { return partOf(sent(kind, i).getStr(), n); }
// host -> part -> items
template <class T> using Placed = map<string, map<int, vector<T>>>;
template <class Req, class F> map<string, std::remove_reference_t<decltype(std::declval<F>()(std::declval<const Req&>()))>> arrived(Ctx& c, F f, const char* fn) {
    map<string, std::remove_reference_t<decltype(f(std::declval<const Req&>()))>> r;
    for (auto& g : got<Req>) { MC_CHECK(c, (!r.count(S(g.first))), "twice", fn << ": two requests to " << S(g.first)); r.emplace(S(g.first), f(g.second)); }
    for (auto& k : calls) MC_CHECK(c, k.fn == fn, "function", "a " << k.fn << " was sent for a " << fn);
    MC_CHECK(c, (calls.size() == got<Req>.size()), "function", "other requests were sent for a " << fn);
    return r;
}
struct Route { Ctx& c; World& w; vector<int> lead; int kind; vector<int> ids; };
// what a request must be, given the items of its host: compared field by field by the request's own equality
template <class Req, class T, class Make> void judge(Route& r, const char* fn, const vector<std::pair<int, T>>& items, Make make) {   // items: (part, item as sent)
    Ctx& c = r.c; Placed<T> want; map<string, HostAddr> addr;
    for (auto& it : items) {
        auto l = r.w.meta->getStorageLeaderFromCache(SPACE, it.first); MC_CHECK(c, (l.ok()), "leader", "part " << it.first << " has no leader after the request");
        int k = r.lead[it.first - 1]; if (k >= 0) MC_CHECK(c, (l.value() == H[k]), "leader", "the leader of part " << it.first << " became " << S(l.value()) << " by sending");
        want[S(l.value())][it.first].push_back(it.second);
    }
    auto have = arrived<Req>(c, [](const Req& q) { return q; }, fn);
    MC_CHECK(c, (have.size() == want.size()), "hosts", fn << " was sent to " << have.size() << " hosts, expected " << want.size());
    for (auto& h : want) {
        auto it = have.find(h.first); MC_CHECK(c, (it != have.end()), "hosts", fn << " was not sent to " << h.first);
        std::unordered_map<int, vector<T>> parts(h.second.begin(), h.second.end()); Req q = make(parts);
        MC_CHECK(c, (it->second.get_parts() == q.get_parts()), "items", fn << ": the items sent to " << h.first << " are not those of its parts");
        MC_CHECK(c, (it->second == q), "fields", fn << ": the request to " << h.first << " differs from the arguments given");
    }
}
template <class F> void finish(Route& r, F& f, const char* fn) { MC_CHECK(r.c, (f.isReady() == r.ids.empty()), "early", fn << " finished before any host answered"); r.w.settleAll(); MC_CHECK(r.c, (f.isReady()), "never", fn << " did not finish after every host answered"); MC_CHECK(r.c, (f.hasValue() && f.value().succeeded() && f.value().failedParts().empty()), "result", fn << " did not succeed although every host did"); }
static st::EdgeKey ek(const Value& s, const Value& d, int type, int64_t rank) { st::EdgeKey k; k.set_src(s); k.set_dst(d); k.set_edge_type(type); k.set_ranking(rank); return k; }
static const char* FN[] = {"getNeighbors", "getProps", "getProps of edges", "addVertices", "addEdges", "addEdgesAtomic", "deleteEdges", "deleteVertices", "deleteTags", "kv get", "kv put", "kv remove"};
static void send(Route& r, int fn, bool full, int rep) {
    Ctx& c = r.c; int n = (int)r.lead.size(), kind = r.kind; Graph g(r.w.io, r.w.meta.get()); nebula::storage::GeneralStorageClient kv(r.w.io, r.w.meta.get());
    vector<st::StatProp> sp(1); sp[0].set_alias("s"); sp[0].set_prop("p"); sp[0].set_stat(st::StatType::SUM); vector<st::VertexProp> vp(1); vp[0].set_tag(3); vp[0].set_props({"x"}); vector<st::EdgeProp> ep(1); ep[0].set_type(-4); ep[0].set_props({"y"});
    vector<st::Expr> ex(1); ex[0].set_alias("e"); ex[0].set_expr("code"); vector<st::OrderBy> ob; if (full) { ob.resize(1); ob[0].set_prop("z"); ob[0].set_direction(st::OrderDirection::DESCENDING); } string filter = full ? "f" : "";
    switch (fn) {
        case 0: {
            vector<Row> rows; for (int i : r.ids) rows.emplace_back(nebula::List({vid(kind, i), Value(i)})); auto before = rows; vector<std::pair<int, Row>> items; for (int i : r.ids) items.emplace_back(partFor(kind, i, n), Row(nebula::List({sent(kind, i), Value(i)})));
            auto f = g.getNeighbors(SPACE, {"_vid", "c"}, rows, {1, -2}, full ? st::EdgeDirection::IN_EDGE : st::EdgeDirection::BOTH, full ? &sp : nullptr, full ? &vp : nullptr, full ? &ep : nullptr, full ? &ex : nullptr, full, !full, ob, full ? 7 : 9, filter);
            MC_CHECK(c, (rows == before), "argument", "getNeighbors changed the rows it was given");
            r.w.run(); judge<st::GetNeighborsRequest, Row>(r, "getNeighbors", items, [&](auto& p) { st::GetNeighborsRequest q; q.set_space_id(SPACE); q.set_column_names({"_vid", "c"}); q.set_parts(p); st::TraverseSpec s; s.set_edge_types({1, -2}); s.set_edge_direction(full ? st::EdgeDirection::IN_EDGE : st::EdgeDirection::BOTH); s.set_dedup(full); s.set_random(!full); s.set_limit(full ? 7 : 9);
                if (full) { s.set_stat_props(sp); s.set_vertex_props(vp); s.set_edge_props(ep); s.set_expressions(ex); s.set_order_by(ob); s.set_filter("f"); } q.set_traverse_spec(s); return q; });
            finish(r, f, FN[fn]); break;
        }
        case 1: case 2: {
            bool e = fn == 2; nebula::DataSet in; in.colNames = {"a"}; vector<std::pair<int, Row>> items;
            for (int i : r.ids) { int d = (i + 1) % 4; in.rows.emplace_back(e ? nebula::List({vid(kind, i), Value(1), Value(2), vid(kind, d)}) : nebula::List({vid(kind, i), Value(i)})); items.emplace_back(partFor(kind, i, n), Row(e ? nebula::List({sent(kind, i), Value(1), Value(2), sent(kind, d)}) : nebula::List({sent(kind, i), Value(i)}))); }
            auto before = in; auto f = g.getProps(SPACE, in, e ? nullptr : &vp, e ? &ep : nullptr, full ? &ex : nullptr, full, ob, full ? 7 : 9, filter);
            MC_CHECK(c, (in.rows == before.rows), "argument", "getProps changed the rows it was given");
            r.w.run(); judge<st::GetPropRequest, Row>(r, "getProps", items, [&](auto& p) { st::GetPropRequest q; q.set_space_id(SPACE); q.set_parts(p); q.set_dedup(full); q.set_limit(full ? 7 : 9); if (e) q.set_edge_props(ep); else q.set_vertex_props(vp); if (full) { q.set_expressions(ex); q.set_order_by(ob); q.set_filter("f"); } return q; });
            finish(r, f, FN[fn]); break;
        }
        case 3: {
            vector<st::NewVertex> v; vector<std::pair<int, st::NewVertex>> items; for (int i : r.ids) { st::NewTag t; t.set_tag_id(3); t.set_props({Value(i)}); st::NewVertex x; x.set_id(vid(kind, i)); x.set_tags({t}); v.push_back(x); x.set_id(sent(kind, i)); items.emplace_back(partFor(kind, i, n), x); }
            std::unordered_map<int, vector<string>> names{{3, {"x"}}}; auto f = g.addVertices(SPACE, v, names, full); r.w.run();
            judge<st::AddVerticesRequest, st::NewVertex>(r, "addVertices", items, [&](auto& p) { st::AddVerticesRequest q; q.set_space_id(SPACE); q.set_parts(p); q.set_prop_names(names); q.set_if_not_exists(full); return q; }); finish(r, f, FN[fn]); break;
        }
        case 4: case 5: {
            vector<st::NewEdge> v; vector<std::pair<int, st::NewEdge>> items; for (int i : r.ids) { int d = (i + 1) % 4; st::NewEdge x; x.set_key(ek(vid(kind, i), vid(kind, d), -4, i)); x.set_props({Value(i)}); v.push_back(x); x.set_key(ek(sent(kind, i), sent(kind, d), -4, i)); items.emplace_back(partFor(kind, i, n), x); }
            auto f = g.addEdges(SPACE, v, {"y"}, full, nullptr, fn == 5); r.w.run();
            judge<st::AddEdgesRequest, st::NewEdge>(r, FN[fn], items, [&](auto& p) { st::AddEdgesRequest q; q.set_space_id(SPACE); q.set_parts(p); q.set_prop_names({"y"}); q.set_if_not_exists(full); return q; }); finish(r, f, FN[fn]); break;
        }
        case 6: {
            vector<st::EdgeKey> v; vector<std::pair<int, st::EdgeKey>> items; for (int i : r.ids) { int d = (i + 1) % 4; v.push_back(ek(vid(kind, i), vid(kind, d), 4, i)); items.emplace_back(partFor(kind, i, n), ek(sent(kind, i), sent(kind, d), 4, i)); }
            auto f = g.deleteEdges(SPACE, v); r.w.run(); judge<st::DeleteEdgesRequest, st::EdgeKey>(r, "deleteEdges", items, [&](auto& p) { st::DeleteEdgesRequest q; q.set_space_id(SPACE); q.set_parts(p); return q; }); finish(r, f, FN[fn]); break;
        }
        case 7: {
            vector<Value> v; vector<std::pair<int, Value>> items; for (int i : r.ids) { v.push_back(vid(kind, i)); items.emplace_back(partFor(kind, i, n), sent(kind, i)); }
            auto f = g.deleteVertices(SPACE, v); r.w.run(); judge<st::DeleteVerticesRequest, Value>(r, "deleteVertices", items, [&](auto& p) { st::DeleteVerticesRequest q; q.set_space_id(SPACE); q.set_parts(p); return q; }); finish(r, f, FN[fn]); break;
        }
        case 8: {
            vector<st::DelTags> v; vector<std::pair<int, st::DelTags>> items; for (int i : r.ids) { st::DelTags x; x.set_id(vid(kind, i)); x.set_tags({3, i}); v.push_back(x); x.set_id(sent(kind, i)); items.emplace_back(partFor(kind, i, n), x); }
            auto f = g.deleteTags(SPACE, v); r.w.run(); judge<st::DeleteTagsRequest, st::DelTags>(r, "deleteTags", items, [&](auto& p) { st::DeleteTagsRequest q; q.set_space_id(SPACE); q.set_parts(p); return q; }); finish(r, f, FN[fn]); break;
        }
        case 9: case 11: {
            vector<string> v; vector<std::pair<int, string>> items; for (int i : r.ids) { v.push_back(TEXTS[i]); items.emplace_back(partOf(TEXTS[i], n), TEXTS[i]); }
            if (fn == 9) { auto f = kv.get(SPACE, vector<string>(v), full); r.w.run(); judge<st::KVGetRequest, string>(r, "get", items, [&](auto& p) { st::KVGetRequest q; q.set_space_id(SPACE); q.set_parts(p); q.set_return_partly(full); return q; }); finish(r, f, FN[fn]); }
            else { auto f = kv.remove(SPACE, v); r.w.run(); judge<st::KVRemoveRequest, string>(r, "remove", items, [&](auto& p) { st::KVRemoveRequest q; q.set_space_id(SPACE); q.set_parts(p); return q; }); finish(r, f, FN[fn]); }
            break;
        }
        default: {
            vector<nebula::KeyValue> v; vector<std::pair<int, nebula::KeyValue>> items; for (int i : r.ids) { nebula::KeyValue x(std::make_pair(string(TEXTS[i]), "v" + I(i))); v.push_back(x); items.emplace_back(partOf(TEXTS[i], n), x); }
            auto f = kv.put(SPACE, v); r.w.run(); judge<st::KVPutRequest, nebula::KeyValue>(r, "put", items, [&](auto& p) { st::KVPutRequest q; q.set_space_id(SPACE); q.set_parts(p); return q; }); finish(r, f, FN[fn]); break;
        }
    }
    (void)rep;
}
static vector<int> chooseLead(Ctx& c, int n, int hosts, bool unknown) { vector<int> l(n); for (auto& x : l) { x = c.choose(hosts + unknown) - unknown; } return l; }
static void route(Ctx& c) {
    int fn = c.choose(12), kind = fn >= 9 ? 0 : c.choose(2); auto lead = chooseLead(c, 1 + c.choose(NPART), 2, true); int k = c.choose(c.thorough() ? 4 : 3); vector<int> ids; for (int i = 0; i < k; ++i) ids.push_back(c.choose(4)); bool full = c.flip();
    World w(lead, kind, 1 + (int)(lead.size() > 1)); Route r{c, w, lead, kind, ids}; send(r, fn, full, 0); c.outcome(FN[fn]); c.step();
}
// every part is asked exactly once, at its leader
static void everyPart(Ctx& c) {
    bool traverse = c.flip(), edge = c.flip(); auto lead = chooseLead(c, 1 + c.choose(NPART), 3, true); World w(lead, 0, 2); Graph g(w.io, w.meta.get());
    vector<st::IndexQueryContext> ctx(2); ctx[0].set_index_id(4); ctx[0].set_filter("f"); ctx[1].set_index_id(6); st::IndexSpec is; is.set_contexts(ctx); is.set_is_edge(edge); is.set_tag_or_edge_id(edge ? -8 : 9); st::TraverseSpec ts; ts.set_edge_types({3}); ts.set_dedup(edge);
    map<int, int> seen; auto take = [&](const HostAddr& h, const vector<int>& parts) { for (int p : parts) { ++seen[p]; auto l = w.meta->getStorageLeaderFromCache(SPACE, p); MC_CHECK(c, (l.ok() && l.value() == h && (p > (int)lead.size() || lead[p - 1] < 0 || H[lead[p - 1]] == h)), "leader", "part " << p << " was looked up at " << S(h) << ", which does not lead it"); } };
    auto ended = [&](auto& f) { MC_CHECK(c, (!f.isReady()), "early", "finished before any host answered"); w.settleAll(); MC_CHECK(c, (f.isReady() && f.hasValue() && f.value().succeeded()), "never", "a look-up did not finish or not succeed although every host answered"); };
    if (traverse) { auto f = g.lookupAndTraverse(SPACE, is, ts); w.run(); for (auto& q : got<st::LookupAndTraverseRequest>) { take(q.first, q.second.get_parts()); auto e = st::LookupAndTraverseRequest(); e.set_space_id(SPACE); e.set_parts(q.second.get_parts()); e.set_indices(is); e.set_traverse_spec(ts); MC_CHECK(c, (e == q.second), "fields", "the request differs from the arguments given"); } ended(f); }
    else { auto f = g.lookupIndex(SPACE, ctx, edge, edge ? -8 : 9, {"_vid", "x"}); w.run(); for (auto& q : got<st::LookupIndexRequest>) { take(q.first, q.second.get_parts()); auto e = st::LookupIndexRequest(); e.set_space_id(SPACE); e.set_parts(q.second.get_parts()); e.set_indices(is); e.set_return_columns({"_vid", "x"}); MC_CHECK(c, (e == q.second), "fields", "the request differs from the arguments given"); } ended(f); }
    for (int p = 1; p <= (int)lead.size(); ++p) MC_CHECK(c, (seen[p] == 1), "parts", "part " << p << " was looked up " << seen[p] << " times");
    MC_CHECK(c, (seen.size() == lead.size()), "parts", "a part was looked up that the space does not have"); c.outcome(I(calls.size())); c.step();
}
// no metadata, no such space, or ids of a kind that cannot be placed: an error, and nothing is sent
static void refused(Ctx& c) {
    int why = c.choose(3); World w({0, 1, 0}, why == 2 ? 3 : 0, 1, why != 0); int space = why == 1 ? 77 : SPACE; Graph g(w.io, w.meta.get()); nebula::storage::GeneralStorageClient kv(w.io, w.meta.get()); nebula::storage::InternalStorageClient in(w.io, w.meta.get());
    vector<Row> rows(1, Row(nebula::List({Value("a")}))); nebula::DataSet ds; ds.rows = rows; vector<st::VertexProp> vp; string what; bool ok = true;
    auto fan = [&](const char* n, auto&& f) { what = n; w.settleAll(); MC_CHECK(c, (f.isReady()), "never", n << " of an unknown space never finished"); ok = f.hasValue(); }; auto one = [&](const char* n, auto&& f) { what = n; w.settleAll(); MC_CHECK(c, (f.isReady()), "never", n << " of an unknown space never finished"); ok = f.hasValue() && f.value().ok(); };
    int k = c.choose(19); bool needsVid = true;
    switch (k) {
        case 0: fan("getNeighbors", g.getNeighbors(space, {}, rows, {}, st::EdgeDirection::BOTH, nullptr, nullptr, nullptr, nullptr)); break;
        case 1: fan("getProps", g.getProps(space, ds, &vp, nullptr, nullptr)); break;
        case 2: { st::NewVertex v; v.set_id(Value("a")); fan("addVertices", g.addVertices(space, {v}, {}, false)); break; }
        case 3: { st::NewEdge e; e.set_key(ek("a", "b", 1, 0)); fan("addEdges", g.addEdges(space, {e}, {}, false)); break; }
        case 4: fan("deleteEdges", g.deleteEdges(space, {ek("a", "b", 1, 0)})); break;
        case 5: fan("deleteVertices", g.deleteVertices(space, {Value("a")})); break;
        case 6: { st::DelTags d; d.set_id(Value("a")); fan("deleteTags", g.deleteTags(space, {d})); break; }
        case 7: one("updateVertex", g.updateVertex(space, Value("a"), 1, {}, false, {}, "")); break;
        case 8: one("updateEdge", g.updateEdge(space, ek("a", "b", 1, 0), {}, false, {}, "")); break;
        case 9: needsVid = false; one("getUUID", g.getUUID(space, "a")); break;
        case 10: needsVid = false; fan("lookupIndex", g.lookupIndex(space, {}, false, 1, {})); break;
        case 11: needsVid = false; fan("lookupAndTraverse", g.lookupAndTraverse(space, {}, {})); break;
        case 12: { needsVid = false; st::ScanEdgeRequest q; q.set_space_id(space); q.set_part_id(1); one("scanEdge", g.scanEdge(q)); break; }
        case 13: { needsVid = false; st::ScanVertexRequest q; q.set_space_id(space); q.set_part_id(1); one("scanVertex", g.scanVertex(q)); break; }
        case 14: needsVid = false; fan("get", kv.get(space, {"a"}, false)); break;
        case 15: needsVid = false; fan("put", kv.put(space, {nebula::KeyValue(std::make_pair(string("a"), string("b")))})); break;
        case 16: needsVid = false; fan("remove", kv.remove(space, {"a"})); break;
        case 17: { needsVid = false; auto f = in.forwardTransaction(1, space, 1, "d"); w.settleAll(); what = "forwardTransaction"; MC_CHECK(c, (f.isReady()), "never", "forwardTransaction never finished"); ok = f.value() == Code::SUCCEEDED; break; }
        default: { needsVid = false; auto f = in.getValue(1, space, "0000abcd"); w.settleAll(); what = "getValue"; MC_CHECK(c, (f.isReady()), "never", "getValue never finished"); ok = nebula::ok(f.value()); break; }
    }
    if (why == 2 && !needsVid) { c.outcome("n/a"); return; }
    MC_CHECK(c, (!ok && calls.empty()), "refused", what << (why == 0 ? " before the metadata is loaded" : why == 1 ? " of an unknown space" : " in a space with ids of no known kind") << (ok ? " succeeded" : " was sent")); c.outcome(what); c.step();
}
// ---- outcomes
struct Kind { const char* name; bool exc; vector<Failed> f; };
static const Code CODES[] = {Code::E_LEADER_CHANGED, Code::E_PART_NOT_FOUND, Code::E_SPACE_NOT_FOUND, Code::E_CONSENSUS_ERROR};
static Reply outcome(Ctx& c, int host, const vector<int>& led, bool few) {
    // 0 answered; 1 transport failure; then the first led part fails with a code (leader changes: named, unnamed, empty address, port 0); then all led parts fail; then one is reported twice
    int k = c.choose(few ? 5 : 11); Reply r; r.latency = 100 * (host + 1); int p = led.empty() ? 1 : led[0];
    if (few) { static const int F[] = {0, 1, 2, 6, 9}; k = F[k]; }
    switch (k) {
        case 0: break; case 1: r.exc = true; break;
        case 2: r.failed = {{p, CODES[0], true, H[3]}}; break; case 3: r.failed = {{p, CODES[0]}}; break; case 4: r.failed = {{p, CODES[0], true, HostAddr("", 44500)}}; break; case 5: r.failed = {{p, CODES[0], true, HostAddr("10.0.0.4", 0)}}; break;
        case 6: r.failed = {{p, CODES[1]}}; break; case 7: r.failed = {{p, CODES[2]}}; break; case 8: r.failed = {{p, CODES[3], true, H[3]}}; break;
        case 9: for (int q : led) r.failed.push_back({q, q % 2 ? CODES[3] : CODES[0], true, H[3]}); r.latency = 5; break;
        default: r.failed = {{p, CODES[3]}, {p, CODES[1]}}; break;
    }
    return r;
}
// the leaders remembered after an answer
static void apply(map<int, string>& lead, const Reply& r, const vector<int>& led) {
    if (r.exc) { for (int p : led) lead[p] = "none"; return; }
    for (auto& f : r.failed) { if (f.code == CODES[0]) lead[f.part] = f.named && f.leader.host.size() && f.leader.port ? S(f.leader) : "none"; else if (f.code == CODES[1] || f.code == CODES[2]) lead[f.part] = "none"; }
}
static map<int, string> leaders(World& w, int n) { map<int, string> r; for (int p = 1; p <= n; ++p) r[p] = "none"; auto l = w.meta->getLeaderInfo(); for (auto& x : l.value().leaderMap_) r[x.first.second] = S(x.second); return r; }
static string show(const map<int, string>& m) { string s; for (auto& x : m) s += I(x.first) + "=" + x.second + " "; return s; }
static void fanout(Ctx& c, int hosts, bool few, int bases) {
    vector<int> lead; for (int p = 0; p < NPART; ++p) lead.push_back(hosts == 3 ? p : hosts == 2 ? (p == 2 ? 0 : p) : 0);
    World w(lead, 0, bases); map<string, vector<int>> led; for (int p = 0; p < NPART; ++p) led[S(H[lead[p]])].push_back(p + 1);
    map<string, Reply> reply; for (int h = 0; h < hosts; ++h) reply[S(H[h])] = outcome(c, h, led[S(H[h])], few);
    script = [&](const string&, const HostAddr& h) { return reply[S(h)]; };
    Graph g(w.io, w.meta.get()); auto f = g.lookupIndex(SPACE, {}, false, 1, {});
    int done = 0; std::unique_ptr<StorageRpcResponse<st::LookupIndexResp>> res; map<int, string> atEnd;
    f.setCallback_([&](folly::Try<StorageRpcResponse<st::LookupIndexResp>>&& t) { ++done; if (t.hasValue()) res.reset(new StorageRpcResponse<st::LookupIndexResp>(std::move(t).value())); atEnd = leaders(w, NPART); });
    set<size_t> out; string order; size_t handled = 0; map<int, string> want; for (int p = 0; p < NPART; ++p) want[p + 1] = S(H[lead[p]]);
    for (;;) {   // next: a task of an event base, or a host answers
        vector<std::function<void()>> can; for (auto& b : w.io->mcBases()) if (b->mcPending()) { auto* e = b.get(); can.push_back([e] { e->mcRunOne(); }); }
        for (size_t i = 0; i < calls.size(); ++i) if (!out.count(i)) can.push_back([&, i] { out.insert(i); order += S(calls[i].to) + " "; calls[i].settle(0); });
        if (can.empty()) break;
        size_t k = can.size() == 1 ? 0 : c.choose((int)can.size()); can[k](); c.step();
        MC_CHECK(c, (done <= 1), "twice", "the request was completed twice"); MC_CHECK(c, (!done || out.size() == (size_t)hosts), "early", "the request was completed after " << out.size() << " of " << hosts << " hosts answered");
    }
    (void)handled; MC_CHECK(c, (done == 1 && res), "never", "every host answered, and the request was never completed"); auto& r = *res;
    map<int, Code> failed; vector<string> answered; int bad = 0, maxLat = 0; map<string, int> lat;
    for (auto& x : reply) { auto& p = x.second; apply(want, p, led[x.first]); if (p.exc) for (int q : led[x.first]) failed.emplace(q, Code::E_RPC_FAILURE); else { answered.push_back(x.first); lat[x.first] = p.latency; maxLat = std::max(maxLat, p.latency); for (auto& e : p.failed) failed.emplace(e.part, e.code); } bad += p.exc || p.failed.size(); }
    MC_CHECK(c, (r.succeeded() == (bad == 0)), "succeeded", "succeeded() is " << r.succeeded() << " with " << bad << " hosts failing"); MC_CHECK(c, (r.completeness() == (hosts - bad) * 100 / hosts), "completeness", "completeness is " << r.completeness() << " with " << bad << " of " << hosts << " hosts failing");
    MC_CHECK(c, ((map<int, Code>(r.failedParts().begin(), r.failedParts().end()) == failed)), "parts", "the failed parts are not those that failed: " << r.failedParts().size() << ", expected " << failed.size());
    vector<string> have; for (auto& x : r.responses()) have.push_back(brandOf(x)); std::sort(have.begin(), have.end()); std::sort(answered.begin(), answered.end()); MC_CHECK(c, (have == answered), "responses", "the answers kept are not those given: " << have.size() << " of " << answered.size());
    for (auto& x : r.responses()) MC_CHECK(c, (x.get_result() == common(reply[brandOf(x)])), "responses", "the answer of " << brandOf(x) << " was changed");
    map<string, int> hl; for (auto& x : r.hostLatency()) { hl[S(std::get<0>(x))] = std::get<1>(x); MC_CHECK(c, (std::get<2>(x) >= 0), "latency", "negative time"); } MC_CHECK(c, (hl == lat && r.hostLatency().size() == lat.size() && r.maxLatency() == maxLat), "latency", "the latencies are not those reported");
    auto now = leaders(w, NPART); MC_CHECK(c, (now == want), "leaders", "remembered leaders " << show(now) << "expected " << show(want)); MC_CHECK(c, (atEnd == want), "order", "when the request completed the remembered leaders were " << show(atEnd) << "expected " << show(want));
    c.outcome(I(bad) + "/" + I(hosts));
}
// ---- requests for one part
static void single(Ctx& c) {
    int fn = c.choose(5), kind = c.choose(2), id = c.choose(4); bool full = c.flip(); vector<int> lead = {0, 1, 2}; int known = c.choose(2); if (!known) lead = {-1, -1, -1};
    World w(lead, kind, 1 + c.choose(2)); Graph g(w.io, w.meta.get()); int d = (id + 1) % 4; int part = fn >= 3 ? id % 3 + 1 : fn == 2 ? partOf(TEXTS[id], NPART) : partFor(kind, id, NPART);
    Reply r = outcome(c, 0, {part}, false); script = [&](const string&, const HostAddr&) { return r; };
    vector<st::UpdatedProp> up(1); up[0].set_name("n"); up[0].set_value("v"); map<int, string> want, atEnd; bool ok = false, done = false; string brand; st::ResponseCommon rc; folly::EventBase* evb = c.flip() ? w.io->mcBases()[0].get() : nullptr;
    auto judge = [&](auto f, auto tag, auto expect, const char* name) {
        typedef decltype(tag) Resp; typedef decltype(expect) Req; int times = 0;
        f.setCallback_([&](folly::Try<StatusOr<Resp>>&& t) { ++times; done = true; atEnd = leaders(w, NPART); if (t.hasValue() && t.value().ok()) { ok = true; brand = brandOf(t.value().value()); rc = t.value().value().get_result(); } });
        w.run(); MC_CHECK(c, (got<Req>.size() == 1 && calls.size() == 1 && calls[0].fn == name), "sent", name << " was sent " << calls.size() << " times"); auto l = w.meta->getStorageLeaderFromCache(SPACE, part); HostAddr to = got<Req>[0].first;
        MC_CHECK(c, (l.ok() && l.value() == to && (!known || to == H[lead[part - 1]])), "leader", name << " was sent to " << S(to) << ", which does not lead its part"); MC_CHECK(c, (got<Req>[0].second == expect), "fields", name << ": the request differs from the arguments given"); MC_CHECK(c, (!done), "early", name << " finished before it was answered");
        want = leaders(w, NPART); w.settleAll(); MC_CHECK(c, (times == 1 && calls.size() == 1), "never", name << " finished " << times << " times"); MC_CHECK(c, (ok == !r.exc), "result", name << (ok ? " succeeded although the transport failed" : " failed although it was answered"));
        if (ok) MC_CHECK(c, (brand == S(to) && rc == common(r)), "result", name << " gave another answer than the host's");
        apply(want, r, {part}); auto now = leaders(w, NPART); MC_CHECK(c, (now == want), "leaders", "remembered leaders " << show(now) << "expected " << show(want)); MC_CHECK(c, (atEnd == want), "order", "when the request completed the remembered leaders were " << show(atEnd) << "expected " << show(want));
    };
    switch (fn) {
        case 0: { st::UpdateVertexRequest q; q.set_space_id(SPACE); q.set_part_id(part); q.set_vertex_id(sent(kind, id)); q.set_tag_id(6); q.set_updated_props(up); q.set_insertable(full); q.set_return_props({"r"}); if (full) q.set_condition("c"); judge(g.updateVertex(SPACE, vid(kind, id), 6, up, full, {"r"}, full ? "c" : "", evb), st::UpdateResponse(), q, "updateVertex"); break; }
        case 1: { st::UpdateEdgeRequest q; q.set_space_id(SPACE); q.set_part_id(part); q.set_edge_key(ek(sent(kind, id), sent(kind, d), -2, 8)); q.set_updated_props(up); q.set_insertable(full); q.set_return_props({"r"}); if (full) q.set_condition("c"); judge(g.updateEdge(SPACE, ek(vid(kind, id), vid(kind, d), -2, 8), up, full, {"r"}, full ? "c" : "", evb), st::UpdateResponse(), q, "updateEdge"); break; }
        case 2: { st::GetUUIDReq q; q.set_space_id(SPACE); q.set_part_id(part); q.set_name(TEXTS[id]); judge(g.getUUID(SPACE, TEXTS[id], evb), st::GetUUIDResp(), q, "getUUID"); break; }
        case 3: { st::ScanEdgeRequest q; q.set_space_id(SPACE); q.set_part_id(part); q.set_limit(10); if (full) q.set_cursor("c"); judge(g.scanEdge(q, evb), st::ScanEdgeResponse(), q, "scanEdge"); break; }
        default: { st::ScanVertexRequest q; q.set_space_id(SPACE); q.set_part_id(part); q.set_limit(10); if (full) q.set_cursor("c"); judge(g.scanVertex(q, evb), st::ScanVertexResponse(), q, "scanVertex"); break; }
    }
    c.outcome(r.exc ? "exc" : I(r.failed.size())); c.step();
}
// ---- requests between storage servers: sent to the internal port, again after a change of leader, and only then
static int g_slept = 0;
extern "C" int nanosleep(const struct timespec*, struct timespec*) { ++g_slept; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { ++g_slept; return 0; }
static void internal(Ctx& c) {
    bool txn = c.flip(); int id = c.choose(3) + 1; int n = c.choose(NPART) + 1; vector<int> lead; for (int p = 0; p < n; ++p) lead.push_back(p % 3); World w(lead, 0, 1); nebula::storage::InternalStorageClient in(w.io, w.meta.get());
    string v = id == 3 ? "Tom Hanks" : id == 2 ? "bcdefghi" : "a"; int part = txn ? c.choose(n) + 1 : partOf(v, n); vector<Reply> rs; g_slept = 0; int k = 0;
    HostAddr at = H[lead[part - 1]]; vector<HostAddr> to; int expect = 0;
    for (;; ++expect) { int o = c.choose(expect < 2 ? 5 : 4); Reply r; if (o == 1) r.exc = true; else if (o == 2) r.failed = {{part, CODES[1]}}; else if (o == 3) r.failed = {{part, CODES[3]}}; else if (o == 4) r.failed = {{part, CODES[0], true, H[(expect + 1) % 3]}}; rs.push_back(r); to.push_back(HostAddr(at.host, at.port - 2)); if (o != 4) break; at = H[(expect + 1) % 3]; }
    script = [&](const string&, const HostAddr&) { return rs[std::min<size_t>(k++, rs.size() - 1)]; };
    Code code = Code::E_UNKNOWN; string value; bool done = false; Reply& last = rs.back();
    if (txn) { auto f = in.forwardTransaction(42, SPACE, part, "data"); w.settleAll(); done = f.isReady(); if (done) code = f.value(); }
    else { auto f = in.getValue(v.size(), SPACE, string("\0\1\0\0", 4) + v + "tail"); w.settleAll(); done = f.isReady(); if (done) { if (nebula::ok(f.value())) { code = Code::SUCCEEDED; value = nebula::value(f.value()); } else code = nebula::error(f.value()); } }
    const char* name = txn ? "forwardTransaction" : "getValue"; MC_CHECK(c, (done), "never", name << " never finished"); vector<HostAddr> sentTo; for (auto& x : calls) sentTo.push_back(x.to); MC_CHECK(c, (sentTo == to), "sent", name << " was sent to " << S(sentTo) << "expected " << S(to));
    for (auto& q : got<st::InternalTxnRequest>) { st::InternalTxnRequest e; e.set_txn_id(42); e.set_space_id(SPACE); e.set_part_id(part); e.set_position(1); e.set_data({{}, {"data"}}); MC_CHECK(c, (q.second == e), "fields", "the request differs from the arguments given"); }
    for (auto& q : got<st::GetValueRequest>) { st::GetValueRequest e; e.set_space_id(SPACE); e.set_part_id(part); e.set_key(string("\0\1\0\0", 4) + v + "tail"); MC_CHECK(c, (q.second == e), "fields", "the request differs from the arguments given"); }
    Code wantCode = last.exc ? Code::E_UNKNOWN : last.failed.empty() ? Code::SUCCEEDED : last.failed[0].code; MC_CHECK(c, (last.exc ? code != Code::SUCCEEDED : code == wantCode), "result", name << " gave code " << (int)code << ", expected " << (int)wantCode);
    if (!txn && code == Code::SUCCEEDED) MC_CHECK(c, (value == S(to.back())), "result", "getValue gave " << value); MC_CHECK(c, (g_slept == expect), "pause", name << " paused " << g_slept << " times for " << expect << " changes of leader"); c.outcome(I(expect)); c.step();
}
int main(int argc, char** argv) {
    vector<mc::Scenario> sc;
    sc.push_back({"route", route, false, "12 kinds of request, integer and text ids, 1 to 3 parts led by 2 hosts or nobody in every way, all lists of up to 2 (3) of 4 ids, options set or not"});
    sc.push_back({"every part", everyPart, false, "both look-ups, 1 to 3 parts led by 3 hosts or nobody in every way"});
    sc.push_back({"refused", refused, false, "all 19 requests before the first load, of an unknown space, and in a space with an unknown kind of ids"});
    sc.push_back({"fanout", [](Ctx& c) { int hosts = 1 + c.choose(3); fanout(c, hosts, hosts == 3 && !c.thorough(), 1 + c.choose(hosts == 3 ? (c.thorough() ? 3 : 1) : 2)); }, false, "1 and 2 hosts with each of 11 outcomes on 1 or 2 event bases, 3 hosts with each of 5 (11) on 1 (to 3), every order of sending, answering and handling the answers"});
    sc.push_back({"single", single, false, "5 requests for one part, 4 ids of both kinds, each of 11 outcomes"});
    sc.push_back({"internal", internal, false, "both requests between servers, 1 to 3 parts, all sequences of up to 3 attempts with each of 5 outcomes"});
    return mc::run(argc, argv, "C36", sc, {"the RPC layer and the event loop are stand-ins: a task of an event base runs to its end before the next", "integer ids are given to integer spaces and text ids to text spaces, as the interface demands", "the id in a key for getValue has the full length of the space's ids"});
}
