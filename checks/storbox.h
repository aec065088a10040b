// Storage servers inside the process: every call made through a storage client is recorded with its host and request, and answered when the harness says so.
#pragma once
#include <deque>
#include "metabox.h"
#include "common/clients/storage/GraphStorageClient.h"
#include "common/clients/storage/GeneralStorageClient.h"
#include "common/clients/storage/InternalStorageClient.h"
namespace storbox {
using namespace metabox;
namespace st = nebula::storage::cpp2; using nebula::Value; using nebula::Row;
inline string I(int64_t v) { return std::to_string(v); }
struct Pending { string fn; HostAddr to; std::function<void(int)> settle; };   // settle(-1): the transport fails; settle(i): answered as script i
inline std::vector<Pending> calls; inline size_t settled = 0;
struct Failed { int part; Code code; bool named = false; HostAddr leader; };
struct Reply { bool exc = false; int latency = 0; vector<Failed> failed; };
inline std::function<Reply(const string&, const HostAddr&)> script;
inline st::ResponseCommon common(const Reply& r) {
    st::ResponseCommon c; c.set_latency_in_us(r.latency); vector<st::PartitionResult> v;
    for (auto& f : r.failed) { st::PartitionResult p; p.set_code(f.code); p.set_part_id(f.part); if (f.named) p.set_leader(f.leader); v.push_back(p); }
    c.set_failed_parts(v); return c;
}
// each answer carries its host in the way its kind allows, so that answers can be told apart
template <class T> auto brand(T& r, const string& s) -> decltype(r.set_vertices(nebula::DataSet()), void()) { nebula::DataSet d; d.colNames = {s}; r.set_vertices(d); }
inline void brand(st::GetPropResponse& r, const string& s) { nebula::DataSet d; d.colNames = {s}; r.set_props(d); }
inline void brand(st::LookupIndexResp& r, const string& s) { nebula::DataSet d; d.colNames = {s}; r.set_data(d); }
inline void brand(st::UpdateResponse& r, const string& s) { nebula::DataSet d; d.colNames = {s}; r.set_props(d); }
inline void brand(st::GetUUIDResp& r, const string& s) { r.set_id(Value(s)); }
inline void brand(st::ScanVertexResponse& r, const string& s) { r.set_next_cursor(s); }
inline void brand(st::ScanEdgeResponse& r, const string& s) { r.set_next_cursor(s); }
inline void brand(st::KVGetResponse& r, const string& s) { r.set_key_values(std::unordered_map<string, string>{{"host", s}}); }
inline void brand(st::GetValueResponse& r, const string& s) { r.set_value(s); }
inline void brand(st::ExecResponse&, const string&) {}
inline string brandOf(st::GetNeighborsResponse& r) { auto* d = r.get_vertices(); return d && d->colNames.size() ? d->colNames[0] : "?"; }
inline string brandOf(st::GetPropResponse& r) { auto* d = r.get_props(); return d && d->colNames.size() ? d->colNames[0] : "?"; }
inline string brandOf(st::LookupIndexResp& r) { auto* d = r.get_data(); return d && d->colNames.size() ? d->colNames[0] : "?"; }
inline string brandOf(st::UpdateResponse& r) { auto* d = r.get_props(); return d && d->colNames.size() ? d->colNames[0] : "?"; }
inline string brandOf(st::GetUUIDResp& r) { return r.get_id().isStr() ? r.get_id().getStr() : "?"; }
inline string brandOf(st::ScanVertexResponse& r) { auto* s = r.get_next_cursor(); return s ? *s : "?"; }
inline string brandOf(st::ScanEdgeResponse& r) { auto* s = r.get_next_cursor(); return s ? *s : "?"; }
inline string brandOf(st::KVGetResponse& r) { auto it = r.get_key_values().find("host"); return it == r.get_key_values().end() ? "?" : it->second; }
inline string brandOf(st::ExecResponse&) { return ""; }
template <class Resp> string brandText(const HostAddr& h) { return std::is_same<Resp, st::ExecResponse>::value ? "" : S(h); }
// the requests of each kind as they arrived
template <class Req> inline vector<std::pair<HostAddr, Req>> got;
inline vector<std::function<void()>> resets;
template <class Resp, class Req, class C> folly::Future<Resp> call(const char* fn, C* c, const Req& q) {
    static bool known = (resets.push_back([] { got<Req>.clear(); }), true); (void)known;
    auto peer = c->mcPeer(); HostAddr h(peer.getAddressStr(), peer.getPort()); got<Req>.emplace_back(h, q);
    auto p = std::make_shared<folly::Promise<Resp>>(); auto f = p->getFuture(); string name = fn;
    calls.push_back({name, h, [p, h, name](int) {
        Reply r = script ? script(name, h) : Reply();
        if (r.exc) { p->setException(std::runtime_error("connection lost")); return; }
        Resp a; a.set_result(common(r)); brand(a, S(h)); p->setValue(std::move(a));
    }});
    return f;
}
inline void installStorage() {
    typedef st::GraphStorageServiceAsyncClient G; typedef st::GeneralStorageServiceAsyncClient K; typedef st::InternalStorageServiceAsyncClient N;
#define SB_HOOK(C, fn, Req, Resp) C::mc_##fn = [](C* c, const st::Req& q) { return call<st::Resp>(#fn, c, q); };
    SB_HOOK(G, getNeighbors, GetNeighborsRequest, GetNeighborsResponse) SB_HOOK(G, getProps, GetPropRequest, GetPropResponse) SB_HOOK(G, addVertices, AddVerticesRequest, ExecResponse) SB_HOOK(G, addEdges, AddEdgesRequest, ExecResponse)
    SB_HOOK(G, addEdgesAtomic, AddEdgesRequest, ExecResponse) SB_HOOK(G, deleteEdges, DeleteEdgesRequest, ExecResponse) SB_HOOK(G, deleteVertices, DeleteVerticesRequest, ExecResponse) SB_HOOK(G, deleteTags, DeleteTagsRequest, ExecResponse)
    SB_HOOK(G, updateVertex, UpdateVertexRequest, UpdateResponse) SB_HOOK(G, updateEdge, UpdateEdgeRequest, UpdateResponse) SB_HOOK(G, getUUID, GetUUIDReq, GetUUIDResp) SB_HOOK(G, lookupIndex, LookupIndexRequest, LookupIndexResp)
    SB_HOOK(G, lookupAndTraverse, LookupAndTraverseRequest, GetNeighborsResponse) SB_HOOK(G, scanEdge, ScanEdgeRequest, ScanEdgeResponse) SB_HOOK(G, scanVertex, ScanVertexRequest, ScanVertexResponse)
    SB_HOOK(K, get, KVGetRequest, KVGetResponse) SB_HOOK(K, put, KVPutRequest, ExecResponse) SB_HOOK(K, remove, KVRemoveRequest, ExecResponse)
    SB_HOOK(N, getValue, GetValueRequest, GetValueResponse) SB_HOOK(N, forwardTransaction, InternalTxnRequest, ExecResponse)
#undef SB_HOOK
}
inline const HostAddr H[] = {HostAddr("10.0.0.1", 44500), HostAddr("10.0.0.2", 44500), HostAddr("10.0.0.3", 44502), HostAddr("10.0.0.4", 44503)};
enum { SPACE = 5, NPART = 3 };
// a metadata client that has loaded one space of NPART parts; lead[p - 1] is the index of the host that leads part p, or -1 when nobody is known to
struct World {
    Server s; Cluster cl; std::shared_ptr<folly::IOThreadPoolExecutor> mio, io; std::unique_ptr<Client> meta;
    World(const vector<int>& lead, int vidKind, int bases, bool load = true, int hosts = 3) : mio(new folly::IOThreadPoolExecutor(1)), io(new folly::IOThreadPoolExecutor(bases)) {
        srv = &s; s.cl = &cl; pool = mio.get(); waited.clear(); install(); installStorage(); calls.clear(); settled = 0; script = nullptr; for (auto& r : resets) r();
        SpaceM sp; sp.id = SPACE; sp.name = "a"; sp.desc = vidKind; for (int p = 1; p <= (int)lead.size(); ++p) { vector<HostAddr> v; for (int h = 0; h < hosts; ++h) v.push_back(H[(p + h) % hosts]); sp.parts[p] = v; } cl.spaces.push_back(sp);
        for (int h = 0; h < 4; ++h) { HostM x; x.addr = H[h]; vector<int> l; for (size_t p = 0; p < lead.size(); ++p) if (lead[p] == h) l.push_back((int)p + 1); if (l.size()) x.leads.push_back({"a", l}); cl.hosts.push_back(x); }
        m::MetaClientOptions o; o.localHost_ = H[0]; o.skipConfig_ = true; meta.reset(new Client(mio, {HostAddr("127.0.0.1", 45500)}, o));
        if (load && !meta->loadData()) abort();
    }
    ~World() { meta.reset(); drain(); pool = nullptr; srv = nullptr; }
    void run() { for (auto& b : io->mcBases()) while (b->mcRunOne()) {} }
    void settleAll() { for (bool any = true; any;) { run(); any = false; while (settled < calls.size()) { calls[settled++].settle(0); any = true; } } }
};
}  // namespace storbox
