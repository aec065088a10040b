// A metadata server inside the process: a model of the cluster, answered through the hooks of the generated service client.
// Each call is recorded with the address it was sent to; a script decides whether it is answered, fails or is refused.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include "common/base/Base.h"
#include "common/clients/meta/MetaClient.h"
#include "mc.h"
namespace metabox {
using std::map; using std::set; using std::string; using std::vector;
using nebula::HostAddr; using nebula::Status; using nebula::StatusOr;
namespace m = nebula::meta; namespace mt = nebula::meta::cpp2; using Code = nebula::cpp2::ErrorCode;
inline string S(const HostAddr& h) { return h.host + ":" + std::to_string(h.port); }
inline string S(const vector<HostAddr>& v) { string s; for (auto& h : v) s += S(h) + " "; return s; }

struct SchemaM { int id; string name; int kind; int versions; };     // a tag or an edge type; version v has v + 1 columns
struct IndexM { int id; string name; int schema; };
struct ListenerM { HostAddr host; int part; mt::ListenerType type; };
struct SpaceM {
    int id; string name; int desc = 0; map<int, vector<HostAddr>> parts; bool haveTerms = false; map<int, int64_t> terms;
    vector<SchemaM> tags, edges; vector<IndexM> tagIndexes, edgeIndexes; vector<ListenerM> listeners;
};
struct UserM { string pwd; vector<std::pair<int, mt::RoleType>> roles; };
struct HostM { HostAddr addr; vector<std::pair<string, vector<int>>> leads; };
struct FtM { int space; bool edge; int schema; };
struct Cluster { vector<SpaceM> spaces; map<string, UserM> users; vector<HostAddr> ft; map<string, FtM> fti; vector<HostM> hosts; int64_t updated = 0; int64_t id = 77; };

inline mt::PropertyType colType(int kind, int i) { static const mt::PropertyType T[] = {mt::PropertyType::INT64, mt::PropertyType::STRING, mt::PropertyType::BOOL, mt::PropertyType::DOUBLE, mt::PropertyType::FIXED_STRING}; return T[(kind + i) % 5]; }
inline mt::Schema schemaOf(const SchemaM& s, int ver) {
    mt::Schema r; vector<mt::ColumnDef> cols;
    for (int i = 0; i <= ver; ++i) {
        mt::ColumnDef c; c.set_name("c" + std::to_string(i)); mt::ColumnTypeDef t; t.set_type(colType(s.kind, i)); if (colType(s.kind, i) == mt::PropertyType::FIXED_STRING) t.set_type_length(5 + i); c.set_type(t);
        if ((s.kind + i) % 3) c.set_nullable((s.kind + i) % 3 == 1); cols.push_back(c);
    }
    r.set_columns(cols); mt::SchemaProp p; if ((s.kind + ver) % 2) { p.set_ttl_col("c0"); p.set_ttl_duration(100 + ver); } r.set_schema_prop(p); return r;
}
inline mt::SpaceDesc descOf(const SpaceM& s) {
    mt::SpaceDesc d; d.set_space_name(s.name); d.set_partition_num((int)s.parts.size()); d.set_replica_factor(1 + s.desc % 3); d.set_charset_name(s.desc % 2 ? "utf8" : ""); d.set_collate_name(s.desc % 2 ? "utf8_bin" : "");
    mt::ColumnTypeDef t; switch (s.desc % 4) { case 0: t.set_type(mt::PropertyType::FIXED_STRING); t.set_type_length(8); break; case 1: t.set_type(mt::PropertyType::INT64); t.set_type_length(8); break;
        case 2: t.set_type(mt::PropertyType::FIXED_STRING); t.set_type_length(32); break; default: t.set_type(mt::PropertyType::STRING); t.set_type_length(0); }
    d.set_vid_type(t); if (s.desc / 2 % 2) d.set_isolation_level(mt::IsolationLevel::TOSS); if (s.desc % 3 == 1) d.set_group_name("g"); return d;
}
inline mt::RoleItem roleOf(const string& u, const std::pair<int, mt::RoleType>& r) { mt::RoleItem i; i.set_user_id(u); i.set_space_id(r.first); i.set_role_type(r.second); return i; }
inline mt::IndexItem indexOf(const IndexM& x, bool edge) { mt::IndexItem i; i.set_index_id(x.id); i.set_index_name(x.name); mt::SchemaID sid; if (edge) sid.set_edge_type(x.schema); else sid.set_tag_id(x.schema); i.set_schema_id(sid); i.set_schema_name("s" + std::to_string(x.schema)); return i; }
inline mt::FTClient ftOf(const HostAddr& h) { mt::FTClient c; c.set_host(h); if (h.port % 2) { c.set_user("u"); c.set_pwd("p" + std::to_string(h.port)); } return c; }
inline mt::FTIndex ftiOf(const FtM& f) { mt::FTIndex i; i.set_space_id(f.space); mt::SchemaID s; if (f.edge) s.set_edge_type(f.schema); else s.set_tag_id(f.schema); i.set_depend_schema(s); i.set_fields({"c0"}); return i; }
inline mt::HostItem hostOf(const HostM& h) { mt::HostItem i; i.set_hostAddr(h.addr); std::unordered_map<string, vector<int>> lp; for (auto& l : h.leads) lp[l.first] = l.second; i.set_leader_parts(lp); i.set_status(mt::HostStatus::ONLINE); return i; }

enum class Out { OK, EXC, ERR, LEADER, LEADER_NONE };   // answered; transport failure; refused; another leader named; no leader known
struct Call { string fn; HostAddr to; };
struct Server {
    Cluster* cl = nullptr; vector<Call> calls; std::function<Out(const string&, int)> script; HostAddr leader{"", 0}; Code err = Code::E_STORE_FAILURE;
    vector<mt::HBReq> beats;
};
inline Server* srv = nullptr;
inline folly::IOThreadPoolExecutor* pool = nullptr;
inline vector<uint32_t> waited;     // the delays after which timers ran
// Run what is queued on the event bases; with nothing queued, the earliest timer.
inline bool pumpOne() {
    if (!pool) return false;
    bool any = false; for (auto& b : pool->mcBases()) while (b->mcRunOne()) any = true;
    if (any) return true;
    for (auto& b : pool->mcBases()) if (!b->timers.empty()) { uint32_t ms = 0; b->mcRunTimer(0, &ms); waited.push_back(ms); return true; }
    return false;
}
inline void drain() { while (pumpOne()) {} }
template <class Resp, class Client> folly::Future<Resp> answer(const char* fn, Client* c, const std::function<void(Resp&)>& fill) {
    auto peer = c->mcPeer(); int i = (int)srv->calls.size(); srv->calls.push_back({fn, HostAddr(peer.getAddressStr(), peer.getPort())});
    Out o = srv->script ? srv->script(fn, i) : Out::OK; Resp r;
    switch (o) {
        case Out::EXC: return folly::makeFuture<Resp>(folly::exception_wrapper(std::make_exception_ptr(std::runtime_error("connection lost"))));
        case Out::ERR: r.set_code(srv->err); break;
        case Out::LEADER: r.set_code(Code::E_LEADER_CHANGED); r.set_leader(srv->leader); break;
        case Out::LEADER_NONE: r.set_code(Code::E_LEADER_CHANGED); r.set_leader(HostAddr("", 0)); break;
        case Out::OK: r.set_code(Code::SUCCEEDED); fill(r); break;
    }
    return folly::makeFuture<Resp>(std::move(r));
}
inline SpaceM* spaceOf(int id) { for (auto& s : srv->cl->spaces) if (s.id == id) return &s; return nullptr; }
inline void install() {
    typedef mt::MetaServiceAsyncClient C;
#define MB_HOOK(fn, Req, Resp, ...) C::mc_##fn = [](C* c, const mt::Req& q) { (void)q; return answer<mt::Resp>(#fn, c, [&](mt::Resp& r) { (void)r; __VA_ARGS__ }); };
    MB_HOOK(listSpaces, ListSpacesReq, ListSpacesResp, { vector<mt::IdName> v; for (auto& s : srv->cl->spaces) { mt::IdName n; mt::ID id; id.set_space_id(s.id); n.set_id(id); n.set_name(s.name); v.push_back(n); } r.set_spaces(v); })
    MB_HOOK(getPartsAlloc, GetPartsAllocReq, GetPartsAllocResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } std::unordered_map<int, vector<HostAddr>> p(s->parts.begin(), s->parts.end()); r.set_parts(p);
        if (s->haveTerms) { std::unordered_map<int, int64_t> t(s->terms.begin(), s->terms.end()); r.set_terms(t); } })
    MB_HOOK(listTags, ListTagsReq, ListTagsResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } vector<mt::TagItem> v;
        for (auto& t : s->tags) for (int ver = t.versions - 1; ver >= 0; --ver) { mt::TagItem i; i.set_tag_id(t.id); i.set_tag_name(t.name); i.set_version(ver); i.set_schema(schemaOf(t, ver)); v.push_back(i); } r.set_tags(v); })
    MB_HOOK(listEdges, ListEdgesReq, ListEdgesResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } vector<mt::EdgeItem> v;
        for (auto& t : s->edges) for (int ver = t.versions - 1; ver >= 0; --ver) { mt::EdgeItem i; i.set_edge_type(t.id); i.set_edge_name(t.name); i.set_version(ver); i.set_schema(schemaOf(t, ver)); v.push_back(i); } r.set_edges(v); })
    MB_HOOK(listTagIndexes, ListTagIndexesReq, ListTagIndexesResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } vector<mt::IndexItem> v; for (auto& x : s->tagIndexes) v.push_back(indexOf(x, false)); r.set_items(v); })
    MB_HOOK(listEdgeIndexes, ListEdgeIndexesReq, ListEdgeIndexesResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } vector<mt::IndexItem> v; for (auto& x : s->edgeIndexes) v.push_back(indexOf(x, true)); r.set_items(v); })
    MB_HOOK(listListener, ListListenerReq, ListListenerResp, { auto* s = spaceOf(q.get_space_id()); if (!s) { r.set_code(Code::E_SPACE_NOT_FOUND); return; } vector<mt::ListenerInfo> v; for (auto& l : s->listeners) { mt::ListenerInfo i; i.set_host(l.host); i.set_part_id(l.part); i.set_type(l.type); i.set_status(mt::HostStatus::ONLINE); v.push_back(i); } r.set_listeners(v); })
    MB_HOOK(getSpace, GetSpaceReq, GetSpaceResp, { for (auto& s : srv->cl->spaces) if (s.name == q.get_space_name()) { mt::SpaceItem i; i.set_space_id(s.id); i.set_properties(descOf(s)); r.set_item(i); return; } r.set_code(Code::E_SPACE_NOT_FOUND); })
    MB_HOOK(listHosts, ListHostsReq, ListHostsResp, { vector<mt::HostItem> v; for (auto& h : srv->cl->hosts) v.push_back(hostOf(h)); r.set_hosts(v); })
    MB_HOOK(listUsers, ListUsersReq, ListUsersResp, { std::unordered_map<string, string> v; for (auto& u : srv->cl->users) v[u.first] = u.second.pwd; r.set_users(v); })
    MB_HOOK(getUserRoles, GetUserRolesReq, ListRolesResp, { vector<mt::RoleItem> v; auto it = srv->cl->users.find(q.get_account()); if (it == srv->cl->users.end()) { r.set_code(Code::E_USER_NOT_FOUND); return; } for (auto& x : it->second.roles) v.push_back(roleOf(it->first, x)); r.set_roles(v); })
    MB_HOOK(listFTClients, ListFTClientsReq, ListFTClientsResp, { vector<mt::FTClient> v; for (auto& h : srv->cl->ft) v.push_back(ftOf(h)); r.set_clients(v); })
    MB_HOOK(listFTIndexes, ListFTIndexesReq, ListFTIndexesResp, { std::unordered_map<string, mt::FTIndex> v; for (auto& f : srv->cl->fti) v[f.first] = ftiOf(f.second); r.set_indexes(v); })
    MB_HOOK(heartBeat, HBReq, HBResp, { srv->beats.push_back(q); r.set_cluster_id(srv->cl->id); r.set_last_update_time_in_ms(srv->cl->updated); })
#undef MB_HOOK
    folly::mcFuturePump = pumpOne;
}
struct Client : m::MetaClient {
    using MetaClient::MetaClient; using MetaClient::loadData; using MetaClient::loadCfg; using MetaClient::heartbeat; using MetaClient::heartBeatThreadFunc; using MetaClient::handleResponse; using MetaClient::getResponse;
    using MetaClient::updateGflagsValue;
};
}  // namespace metabox
