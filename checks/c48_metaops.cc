// C48: every metadata operation sends the request its arguments describe, once, and gives the caller what the server answered.
#include "metabox.h"
#include <glog/logging.h>
using namespace metabox; using mc::Ctx; using std::ostringstream;
DECLARE_int32(meta_client_retry_times);
typedef std::unordered_map<string, string> SMap; template <class K, class V> using UM = std::unordered_map<K, V>; template <class T> using Vec = vector<T>;
static string I(int64_t v) { return std::to_string(v); }
// Arguments and answers of variant v: every position k gets a value of its own.
struct A {
    int v;
    string s(int k) const { if (v == 0) return ""; string t = "s" + I(v) + "_" + I(k); if (v == 2) t += string("\0'\"\xff", 4); if (v == 3) t = string(300 + k, 'x'); return t; }
    int n(int k) const { return v == 0 ? 0 : v == 1 ? INT32_MIN + k : v == 2 ? INT32_MAX - k : v * 100 + k; }
    int64_t l(int k) const { return v == 0 ? 0 : v == 1 ? INT64_MIN + k : v == 2 ? INT64_MAX - k : v * 1000 + k; }
    bool b(int k) const { return (v >> k) & 1; }
    HostAddr h(int k) const { return v == 0 ? HostAddr("", 0) : HostAddr(s(k), v * 10 + k); }
    int len(int k) const { return (v + k) % 3; }
    template <class T, class F> Vec<T> many(int k, F f) const { Vec<T> r; for (int i = 0; i < len(k); ++i) r.push_back(f(A{v + i}, k + 20 * i)); return r; }
    Vec<string> ss(int k) const { return many<string>(k, [](A a, int k) { return a.s(k); }); }
    Vec<HostAddr> hs(int k) const { return many<HostAddr>(k, [](A a, int k) { return a.h(k); }); }
    Vec<int> ns(int k) const { return many<int>(k, [](A a, int k) { return a.n(k); }); }
    mt::ColumnTypeDef type(int k) const { mt::ColumnTypeDef t; static const mt::PropertyType T[] = {mt::PropertyType::INT64, mt::PropertyType::STRING, mt::PropertyType::FIXED_STRING, mt::PropertyType::BOOL}; t.set_type(T[(v + k) % 4]); if (b(1)) t.set_type_length(v + 1); return t; }
    mt::ColumnDef col(int k) const { mt::ColumnDef c; c.set_name(s(k)); c.set_type(type(k)); if (b(0)) c.set_nullable(b(1)); if (b(1)) c.set_default_value(s(k + 1)); if (b(2)) c.set_comment(s(k + 2)); return c; }
    mt::SchemaProp prop(int k) const { mt::SchemaProp p; if (b(0)) p.set_ttl_duration(l(k)); if (b(1)) p.set_ttl_col(s(k)); if (b(2)) p.set_comment(s(k + 1)); return p; }
    mt::Schema schema(int k) const { mt::Schema x; x.set_columns(many<mt::ColumnDef>(k, [](A a, int k) { return a.col(k); })); x.set_schema_prop(prop(k)); return x; }
    mt::SpaceDesc space(int k) const { mt::SpaceDesc d; d.set_space_name(s(k)); d.set_partition_num(n(k)); d.set_replica_factor(n(k + 1)); d.set_charset_name(s(k + 1)); d.set_collate_name(s(k + 2)); d.set_vid_type(type(k)); if (b(0)) d.set_group_name(s(k + 3)); if (b(1)) d.set_isolation_level(b(2) ? mt::IsolationLevel::TOSS : mt::IsolationLevel::DEFAULT); if (b(2)) d.set_comment(s(k + 4)); return d; }
    mt::SpaceItem spaceItem(int k) const { mt::SpaceItem i; i.set_space_id(n(k)); i.set_properties(space(k)); return i; }
    mt::AlterSchemaItem alter(int k) const { mt::AlterSchemaItem i; static const mt::AlterSchemaOp O[] = {mt::AlterSchemaOp::ADD, mt::AlterSchemaOp::CHANGE, mt::AlterSchemaOp::DROP}; i.set_op(O[(v + k) % 3]); i.set_schema(schema(k)); return i; }
    Vec<mt::AlterSchemaItem> alters(int k) const { return many<mt::AlterSchemaItem>(k, [](A a, int k) { return a.alter(k); }); }
    mt::IndexFieldDef field(int k) const { mt::IndexFieldDef f; f.set_name(s(k)); if (b(0)) f.set_type_length(v); return f; }
    Vec<mt::IndexFieldDef> fields(int k) const { return many<mt::IndexFieldDef>(k, [](A a, int k) { return a.field(k); }); }
    mt::SchemaID sid(int k) const { mt::SchemaID i; if (b(0)) i.set_tag_id(n(k)); else i.set_edge_type(n(k)); return i; }
    mt::IndexItem index(int k) const { mt::IndexItem i; i.set_index_id(n(k)); i.set_index_name(s(k)); i.set_schema_id(sid(k)); i.set_schema_name(s(k + 1)); i.set_fields(many<mt::ColumnDef>(k, [](A a, int k) { return a.col(k); })); if (b(1)) i.set_comment(s(k + 2)); return i; }
    Vec<mt::IndexItem> indexes(int k) const { return many<mt::IndexItem>(k, [](A a, int k) { return a.index(k); }); }
    Vec<mt::IndexStatus> istats(int k) const { return many<mt::IndexStatus>(k, [](A a, int k) { mt::IndexStatus i; i.set_name(a.s(k)); i.set_status(a.s(k + 1)); return i; }); }
    mt::TagItem tag(int k) const { mt::TagItem i; i.set_tag_id(n(k)); i.set_tag_name(s(k)); i.set_version(l(k)); i.set_schema(schema(k)); return i; }
    mt::EdgeItem edge(int k) const { mt::EdgeItem i; i.set_edge_type(n(k)); i.set_edge_name(s(k)); i.set_version(l(k)); i.set_schema(schema(k)); return i; }
    mt::HostItem host(int k) const { mt::HostItem i; i.set_hostAddr(h(k)); i.set_status(b(0) ? mt::HostStatus::ONLINE : mt::HostStatus::OFFLINE); UM<string, Vec<int>> m; if (b(1)) m[s(k)] = ns(k); i.set_leader_parts(m); if (b(2)) m[s(k + 1)] = ns(k + 1); i.set_all_parts(m); i.set_role(b(0) ? mt::HostRole::STORAGE : mt::HostRole::META); i.set_git_info_sha(s(k + 2)); if (b(1)) i.set_zone_name(s(k + 3)); if (b(2)) i.set_version(s(k + 4)); return i; }
    mt::PartItem part(int k) const { mt::PartItem i; i.set_part_id(n(k)); if (b(0)) i.set_leader(h(k)); i.set_peers(hs(k)); i.set_losts(hs(k + 1)); return i; }
    mt::RoleItem role(int k) const { mt::RoleItem i; i.set_user_id(s(k)); i.set_space_id(n(k)); i.set_role_type(b(0) ? mt::RoleType::ADMIN : mt::RoleType::USER); return i; }
    Vec<mt::RoleItem> roles(int k) const { return many<mt::RoleItem>(k, [](A a, int k) { return a.role(k); }); }
    nebula::Value value(int k) const { switch (v % 5) { case 0: return nebula::Value(); case 1: return nebula::Value(l(k)); case 2: return nebula::Value(s(k)); case 3: return nebula::Value(b(0)); default: return nebula::Value(0.5 * v); } }
    mt::ConfigModule module(int k) const { static const mt::ConfigModule M[] = {mt::ConfigModule::ALL, mt::ConfigModule::GRAPH, mt::ConfigModule::META, mt::ConfigModule::STORAGE, mt::ConfigModule::UNKNOWN}; return M[(v + k) % 5]; }
    mt::ConfigItem config(int k) const { mt::ConfigItem i; i.set_module(module(k)); i.set_name(s(k)); i.set_mode(b(0) ? mt::ConfigMode::MUTABLE : mt::ConfigMode::REBOOT); i.set_value(value(k)); return i; }
    Vec<mt::ConfigItem> configs(int k) const { return many<mt::ConfigItem>(k, [](A a, int k) { return a.config(k); }); }
    mt::ListenerType ltype(int k) const { return (v + k) % 2 ? mt::ListenerType::ELASTICSEARCH : mt::ListenerType::UNKNOWN; }
    mt::FTClient ft(int k) const { mt::FTClient c; c.set_host(h(k)); if (b(0)) c.set_user(s(k)); if (b(1)) c.set_pwd(s(k + 1)); return c; }
    Vec<mt::FTClient> fts(int k) const { return many<mt::FTClient>(k, [](A a, int k) { return a.ft(k); }); }
    mt::FTIndex fti(int k) const { mt::FTIndex i; i.set_space_id(n(k)); i.set_depend_schema(sid(k)); i.set_fields(ss(k)); return i; }
    mt::Session session(int k) const { mt::Session x; x.set_session_id(l(k)); x.set_create_time(l(k + 1)); x.set_update_time(l(k + 2)); x.set_user_name(s(k)); x.set_space_name(s(k + 1)); x.set_graph_addr(h(k)); x.set_timezone(n(k)); x.set_client_ip(s(k + 2)); UM<string, nebula::Value> m; if (b(0)) m[s(k + 3)] = value(k); x.set_configs(m); UM<int64_t, mt::QueryDesc> q; if (b(1)) q[l(k + 3)] = query(k); x.set_queries(q); return x; }
    mt::QueryDesc query(int k) const { mt::QueryDesc q; q.set_start_time(l(k)); q.set_status(b(0) ? mt::QueryStatus::RUNNING : mt::QueryStatus::KILLING); q.set_duration(l(k + 1)); q.set_query(s(k)); q.set_graph_addr(h(k)); return q; }
    Vec<mt::Session> sessions(int k) const { return many<mt::Session>(k, [](A a, int k) { return a.session(k); }); }
    mt::StatisItem statis(int k) const { mt::StatisItem x; UM<string, int64_t> m; if (b(0)) m[s(k)] = l(k); x.set_tag_vertices(m); if (b(1)) m[s(k + 1)] = l(k + 1); x.set_edges(m); x.set_space_vertices(l(k + 2)); x.set_space_edges(l(k + 3)); x.set_status(b(2) ? mt::JobStatus::FINISHED : mt::JobStatus::RUNNING); return x; }
    mt::AdminJobResult job(int k) const { mt::AdminJobResult r; if (b(0)) r.set_job_id(n(k)); if (b(1)) { mt::JobDesc d; d.set_id(n(k + 1)); d.set_cmd(cmd(k)); d.set_paras(ss(k)); d.set_status(mt::JobStatus::FAILED); r.set_job_desc({d}); } if (b(2)) r.set_recovered_job_num(n(k + 2)); return r; }
    mt::AdminCmd cmd(int k) const { static const mt::AdminCmd M[] = {mt::AdminCmd::COMPACT, mt::AdminCmd::FLUSH, mt::AdminCmd::REBUILD_TAG_INDEX, mt::AdminCmd::STATS}; return M[(v + k) % 4]; }
    mt::AdminJobOp op(int k) const { static const mt::AdminJobOp M[] = {mt::AdminJobOp::ADD, mt::AdminJobOp::SHOW_All, mt::AdminJobOp::SHOW, mt::AdminJobOp::STOP, mt::AdminJobOp::RECOVER}; return M[(v + k) % 5]; }
};
typedef std::pair<string, string> SS; typedef UM<int64_t, std::unordered_set<int64_t>> KQ;
enum How { OK_, ERR_, EXC_ };
struct Live {
    string name, fn; int v = 0; How how = OK_; int sent = 0, heard = 0; virtual ~Live() {} virtual string verdict() = 0;
};
static vector<Live*> lives; static Ctx* C0;
template <class Q, class R> struct LiveQ : Live { Q want; R reply; };
template <class Q, class R, class T> struct LiveT : LiveQ<Q, R> {
    T expect{}; std::shared_ptr<folly::Try<StatusOr<T>>> got; std::function<string()> more;
    string verdict() override {
        if (!got) return "the caller heard nothing"; if (got->hasException()) return string("the future failed: ") + got->exception().what().c_str();
        auto& r = got->value(); if (this->how != OK_) return r.ok() ? "success reported for a failure" : "";
        if (!r.ok()) return "failure reported: " + r.status().toString(); if (!(r.value() == expect)) return "the value differs from the answer"; return more ? more() : "";
    }
    template <class U> void attach(folly::Future<StatusOr<U>>&& f) { std::move(f).thenTry([this](folly::Try<StatusOr<U>>&& t) { ++this->heard; got = std::make_shared<folly::Try<StatusOr<T>>>(std::move(t)); }); }
};
template <class Q, class R> folly::Future<R> serve(const char* fn, const Q& q) {
    LiveQ<Q, R>* l = nullptr; string others;
    for (auto* x : lives) if (x->fn == fn && !x->sent) if (auto* y = dynamic_cast<LiveQ<Q, R>*>(x)) { if (y->want == q) { l = y; break; } others += x->name + " "; }
    if (!l) { string n; for (auto* x : lives) n += x->name + "(" + I(x->v) + ") "; C0->fail("request", string("a request ") + fn + " was sent that no caller's arguments describe; callers: " + n + (others.empty() ? "" : "; fields differ from those for " + others)); }
    ++l->sent; R r = l->reply;
    if (l->how == EXC_) return folly::makeFuture<R>(folly::exception_wrapper(std::make_exception_ptr(std::runtime_error("connection lost"))));
    if (l->how == ERR_) { r = R(); r.set_code(Code::E_STORE_FAILURE); }
    return folly::makeFuture<R>(std::move(r));
}
struct Hooker {
    template <class Q, class R> static void put(const char* n, std::function<folly::Future<R>(mt::MetaServiceAsyncClient*, const Q&)>& f) { f = [n](mt::MetaServiceAsyncClient*, const Q& q) { return serve<Q, R>(n, q); }; }
    template <class F> void operator()(const char* n, F& f) const { put(n, f); }
};
struct Op { const char* name; std::function<std::unique_ptr<Live>(Client&, int)> start; };
static vector<Op> ops;
// OP(name, rpc, request, answer, type of the result, call, fields of the request, fields of the answer, result)
#define OP(NAME, FN, Q, R, T, CALL, QF, RF, EXP) ops.push_back({NAME, [](Client& c, int v) { A a{v}; auto l = std::make_unique<LiveT<mt::Q, mt::R, T>>(); l->name = NAME; l->fn = FN; l->v = v; { auto& q = l->want; (void)q; QF; } auto& r = l->reply; r.set_code(Code::SUCCEEDED); RF; l->expect = EXP; auto* p = l.get(); (void)p; p->attach(CALL); return std::unique_ptr<Live>(std::move(l)); }});
#define DONE(NAME, FN, Q, CALL, QF) OP(NAME, FN, Q, ExecResp, bool, CALL, QF, {}, true)
#define ANS(...) __VA_ARGS__
static void table() {
    OP("submitJob", "runAdminJob", AdminJobReq, AdminJobResp, mt::AdminJobResult, c.submitJob(a.op(0), a.cmd(1), a.ss(2)), { q.set_op(a.op(0)); q.set_cmd(a.cmd(1)); q.set_paras(a.ss(2)); }, r.set_result(a.job(3)), a.job(3))
    OP("createSpace", "createSpace", CreateSpaceReq, ExecResp, int, c.createSpace(a.space(0), a.b(0)), { q.set_properties(a.space(0)); q.set_if_not_exists(a.b(0)); }, { mt::ID i; i.set_space_id(a.n(5)); r.set_id(i); }, a.n(5))
    OP("createSpace strict", "createSpace", CreateSpaceReq, ExecResp, int, c.createSpace(a.space(0)), { q.set_properties(a.space(0)); q.set_if_not_exists(false); }, { mt::ID i; i.set_space_id(a.n(5)); r.set_id(i); }, a.n(5))
    OP("listSpaces", "listSpaces", ListSpacesReq, ListSpacesResp, Vec<m::SpaceIdName>, c.listSpaces(), {}, { Vec<mt::IdName> x = a.many<mt::IdName>(1, [](A a, int k) { mt::IdName n; mt::ID i; i.set_space_id(a.n(k)); n.set_id(i); n.set_name(a.s(k)); return n; }); r.set_spaces(x); }, a.many<m::SpaceIdName>(1, [](A a, int k) { return m::SpaceIdName(a.n(k), a.s(k)); }))
    OP("getSpace", "getSpace", GetSpaceReq, GetSpaceResp, mt::SpaceItem, c.getSpace(a.s(0)), q.set_space_name(a.s(0)), r.set_item(a.spaceItem(1)), a.spaceItem(1))
    DONE("dropSpace", "dropSpace", DropSpaceReq, c.dropSpace(a.s(0), a.b(0)), { q.set_space_name(a.s(0)); q.set_if_exists(a.b(0)); })
    DONE("dropSpace strict", "dropSpace", DropSpaceReq, c.dropSpace(a.s(0)), { q.set_space_name(a.s(0)); q.set_if_exists(false); })
    OP("listHosts", "listHosts", ListHostsReq, ListHostsResp, Vec<mt::HostItem>, c.listHosts(a.b(0) ? mt::ListHostType::STORAGE : mt::ListHostType::META), q.set_type(a.b(0) ? mt::ListHostType::STORAGE : mt::ListHostType::META), r.set_hosts(a.many<mt::HostItem>(1, [](A a, int k) { return a.host(k); })), a.many<mt::HostItem>(1, [](A a, int k) { return a.host(k); }))
    OP("listHosts allocated", "listHosts", ListHostsReq, ListHostsResp, Vec<mt::HostItem>, c.listHosts(), q.set_type(mt::ListHostType::ALLOC), r.set_hosts({a.host(1)}), Vec<mt::HostItem>{a.host(1)})
    OP("listParts", "listParts", ListPartsReq, ListPartsResp, Vec<mt::PartItem>, c.listParts(a.n(0), a.ns(1)), { q.set_space_id(a.n(0)); q.set_part_ids(a.ns(1)); }, r.set_parts(a.many<mt::PartItem>(2, [](A a, int k) { return a.part(k); })), a.many<mt::PartItem>(2, [](A a, int k) { return a.part(k); }))
    ops.push_back({"getPartsAlloc", [](Client& c, int v) {
        A a{v}; auto l = std::make_unique<LiveT<mt::GetPartsAllocReq, mt::GetPartsAllocResp, UM<int, Vec<HostAddr>>>>(); l->name = "getPartsAlloc"; l->fn = "getPartsAlloc"; l->v = v; l->want.set_space_id(a.n(0)); auto& r = l->reply; r.set_code(Code::SUCCEEDED);
        UM<int, Vec<HostAddr>> ps; UM<int, int64_t> ts; for (int i = 0; i < v % 4; ++i) { ps[a.n(i)] = a.hs(i); ts[a.n(i)] = a.l(i); } r.set_parts(ps); bool have = v & 1, ask = v & 2; if (have) r.set_terms(ts); l->expect = ps;
        auto terms = std::make_shared<m::MetaClient::PartTerms>(); l->more = [=]() -> string { return *terms == (have && ask ? ts : UM<int, int64_t>()) ? "" : "the terms differ from the answer"; };
        l->attach(c.getPartsAlloc(a.n(0), ask ? terms.get() : nullptr)); return std::unique_ptr<Live>(std::move(l)); }});
#define SCHEMAS(KIND, kind, IDT, idset) \
    OP("create" KIND "Schema", "create" KIND, Create##kind##Req, ExecResp, int, c.create##kind##Schema(a.n(0), a.s(1), a.schema(2), a.b(0)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_schema(a.schema(2)); q.set_if_not_exists(a.b(0)); }, { mt::ID i; i.IDT(a.n(5)); r.set_id(i); }, a.n(5)) \
    OP("create" KIND "Schema strict", "create" KIND, Create##kind##Req, ExecResp, int, c.create##kind##Schema(a.n(0), a.s(1), a.schema(2)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_schema(a.schema(2)); q.set_if_not_exists(false); }, { mt::ID i; i.IDT(a.n(5)); r.set_id(i); }, a.n(5)) \
    DONE("alter" KIND "Schema", "alter" KIND, Alter##kind##Req, c.alter##kind##Schema(a.n(0), a.s(1), a.alters(2), a.prop(3)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.idset##_items(a.alters(2)); q.set_schema_prop(a.prop(3)); }) \
    DONE("drop" KIND "Schema", "drop" KIND, Drop##kind##Req, c.drop##kind##Schema(a.n(0), a.s(1), a.b(1)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_if_exists(a.b(1)); }) \
    DONE("drop" KIND "Schema strict", "drop" KIND, Drop##kind##Req, c.drop##kind##Schema(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_if_exists(false); }) \
    OP("get" KIND "Schema", "get" KIND, Get##kind##Req, Get##kind##Resp, mt::Schema, c.get##kind##Schema(a.n(0), a.s(1), a.l(2)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_version(a.l(2)); }, r.set_schema(a.schema(3)), a.schema(3)) \
    OP("get" KIND "Schema latest", "get" KIND, Get##kind##Req, Get##kind##Resp, mt::Schema, c.get##kind##Schema(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.idset##_name(a.s(1)); q.set_version(-1); }, r.set_schema(a.schema(3)), a.schema(3)) \
    OP("create" KIND "Index", "create" KIND "Index", Create##kind##IndexReq, ExecResp, int, [&] { string cm = a.s(4); return c.create##kind##Index(a.n(0), a.s(1), a.s(2), a.fields(3), a.b(0), a.b(1) ? &cm : nullptr); }(), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); q.idset##_name(a.s(2)); q.set_fields(a.fields(3)); q.set_if_not_exists(a.b(0)); if (a.b(1)) q.set_comment(a.s(4)); }, { mt::ID i; i.set_index_id(a.n(5)); r.set_id(i); }, a.n(5)) \
    OP("create" KIND "Index strict", "create" KIND "Index", Create##kind##IndexReq, ExecResp, int, c.create##kind##Index(a.n(0), a.s(1), a.s(2), a.fields(3)), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); q.idset##_name(a.s(2)); q.set_fields(a.fields(3)); q.set_if_not_exists(false); }, { mt::ID i; i.set_index_id(a.n(5)); r.set_id(i); }, a.n(5)) \
    DONE("drop" KIND "Index", "drop" KIND "Index", Drop##kind##IndexReq, c.drop##kind##Index(a.n(0), a.s(1), a.b(0)), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); q.set_if_exists(a.b(0)); }) \
    DONE("drop" KIND "Index strict", "drop" KIND "Index", Drop##kind##IndexReq, c.drop##kind##Index(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); q.set_if_exists(false); }) \
    OP("get" KIND "Index", "get" KIND "Index", Get##kind##IndexReq, Get##kind##IndexResp, mt::IndexItem, c.get##kind##Index(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); }, r.set_item(a.index(2)), a.index(2)) \
    OP("list" KIND "Indexes", "list" KIND "Indexes", List##kind##IndexesReq, List##kind##IndexesResp, Vec<mt::IndexItem>, c.list##kind##Indexes(a.n(0)), q.set_space_id(a.n(0)), r.set_items(a.indexes(1)), a.indexes(1)) \
    DONE("rebuild" KIND "Index", "rebuild" KIND "Index", RebuildIndexReq, c.rebuild##kind##Index(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.set_index_name(a.s(1)); }) \
    OP("list" KIND "IndexStatus", "list" KIND "IndexStatus", ListIndexStatusReq, ListIndexStatusResp, Vec<mt::IndexStatus>, c.list##kind##IndexStatus(a.n(0)), q.set_space_id(a.n(0)), r.set_statuses(a.istats(1)), a.istats(1))
    SCHEMAS("Tag", Tag, set_tag_id, set_tag)
    SCHEMAS("Edge", Edge, set_edge_type, set_edge)
    OP("listTagSchemas", "listTags", ListTagsReq, ListTagsResp, Vec<mt::TagItem>, c.listTagSchemas(a.n(0)), q.set_space_id(a.n(0)), r.set_tags(a.many<mt::TagItem>(1, [](A a, int k) { return a.tag(k); })), a.many<mt::TagItem>(1, [](A a, int k) { return a.tag(k); }))
    OP("listEdgeSchemas", "listEdges", ListEdgesReq, ListEdgesResp, Vec<mt::EdgeItem>, c.listEdgeSchemas(a.n(0)), q.set_space_id(a.n(0)), r.set_edges(a.many<mt::EdgeItem>(1, [](A a, int k) { return a.edge(k); })), a.many<mt::EdgeItem>(1, [](A a, int k) { return a.edge(k); }))
    DONE("multiPut", "multiPut", MultiPutReq, [&] { Vec<SS> ps; for (int i = 0; i <= a.len(0); ++i) ps.push_back({a.s(i), a.s(i + 10)}); return c.multiPut("seg" + I(v), ps); }(), { Vec<nebula::KeyValue> ps; for (int i = 0; i <= a.len(0); ++i) ps.push_back(nebula::KeyValue(std::make_pair(a.s(i), a.s(i + 10)))); q.set_segment("seg" + I(v)); q.set_pairs(ps); })
    OP("get", "get", GetReq, GetResp, string, c.get("seg" + I(v), "k" + a.s(1)), { q.set_segment("seg" + I(v)); q.set_key("k" + a.s(1)); }, r.set_value(a.s(2)), a.s(2))
    OP("multiGet", "multiGet", MultiGetReq, MultiGetResp, Vec<string>, c.multiGet("seg" + I(v), {"k" + a.s(1), a.s(2)}), { q.set_segment("seg" + I(v)); q.set_keys({"k" + a.s(1), a.s(2)}); }, r.set_values(a.ss(3)), a.ss(3))
    OP("scan", "scan", ScanReq, ScanResp, Vec<string>, c.scan("seg" + I(v), "a" + a.s(1), "b" + a.s(2)), { q.set_segment("seg" + I(v)); q.set_start("a" + a.s(1)); q.set_end("b" + a.s(2)); }, r.set_values(a.ss(3)), a.ss(3))
    DONE("remove", "remove", RemoveReq, c.remove("seg" + I(v), "k" + a.s(1)), { q.set_segment("seg" + I(v)); q.set_key("k" + a.s(1)); })
    DONE("removeRange", "removeRange", RemoveRangeReq, c.removeRange("seg" + I(v), "a" + a.s(1), "b" + a.s(2)), { q.set_segment("seg" + I(v)); q.set_start("a" + a.s(1)); q.set_end("b" + a.s(2)); })
    DONE("createUser", "createUser", CreateUserReq, c.createUser(a.s(0), a.s(1), a.b(0)), { q.set_account(a.s(0)); q.set_encoded_pwd(a.s(1)); q.set_if_not_exists(a.b(0)); })
    DONE("dropUser", "dropUser", DropUserReq, c.dropUser(a.s(0), a.b(0)), { q.set_account(a.s(0)); q.set_if_exists(a.b(0)); })
    DONE("alterUser", "alterUser", AlterUserReq, c.alterUser(a.s(0), a.s(1)), { q.set_account(a.s(0)); q.set_encoded_pwd(a.s(1)); })
    DONE("grantToUser", "grantRole", GrantRoleReq, c.grantToUser(a.role(0)), q.set_role_item(a.role(0)))
    DONE("revokeFromUser", "revokeRole", RevokeRoleReq, c.revokeFromUser(a.role(0)), q.set_role_item(a.role(0)))
    OP("listUsers", "listUsers", ListUsersReq, ListUsersResp, SMap, c.listUsers(), {}, ANS({ SMap x; for (int i = 0; i < a.len(0); ++i) x[a.s(i)] = a.s(i + 10); r.set_users(x); }), r.get_users())
    OP("listRoles", "listRoles", ListRolesReq, ListRolesResp, Vec<mt::RoleItem>, c.listRoles(a.n(0)), q.set_space_id(a.n(0)), r.set_roles(a.roles(1)), a.roles(1))
    OP("getUserRoles", "getUserRoles", GetUserRolesReq, ListRolesResp, Vec<mt::RoleItem>, c.getUserRoles(a.s(0)), q.set_account(a.s(0)), r.set_roles(a.roles(1)), a.roles(1))
    DONE("changePassword", "changePassword", ChangePasswordReq, c.changePassword(a.s(0), a.s(1), a.s(2)), { q.set_account(a.s(0)); q.set_new_encoded_pwd(a.s(1)); q.set_old_encoded_pwd(a.s(2)); })
    OP("balance", "balance", BalanceReq, BalanceResp, int64_t, c.balance(a.hs(0), a.b(0), a.b(1)), { if (a.len(0)) q.set_host_del(a.hs(0)); if (a.b(0)) q.set_stop(true); if (a.b(1)) q.set_reset(true); }, r.set_id(a.l(1)), a.l(1))
    OP("showBalance", "balance", BalanceReq, BalanceResp, Vec<mt::BalanceTask>, c.showBalance(a.l(0)), q.set_id(a.l(0)), ANS({ Vec<mt::BalanceTask> x = a.many<mt::BalanceTask>(1, [](A a, int k) { mt::BalanceTask t; t.set_id(a.s(k)); t.set_result(a.b(0) ? mt::TaskResult::FAILED : mt::TaskResult::SUCCEEDED); return t; }); r.set_id(7); r.set_tasks(x); }), r.get_tasks())
    DONE("balanceLeader", "leaderBalance", LeaderBalanceReq, c.balanceLeader(), {})
    OP("getTagDefaultValue", "get", GetReq, GetResp, string, c.getTagDefaultValue(a.n(0), a.n(1), a.s(2)), ANS({ int sp = a.n(0), id = a.n(1); q.set_segment("__default__"); q.set_key(string((char*)&sp, 4) + string((char*)&id, 4) + a.s(2)); }), r.set_value(a.s(3)), a.s(3))
    OP("getEdgeDefaultValue", "get", GetReq, GetResp, string, c.getEdgeDefaultValue(a.n(0), a.n(1), a.s(2)), ANS({ int sp = a.n(0), id = a.n(1); q.set_segment("__default__"); q.set_key(string((char*)&sp, 4) + string((char*)&id, 4) + a.s(2)); }), r.set_value(a.s(3)), a.s(3))
    DONE("regConfig", "regConfig", RegConfigReq, c.regConfig(a.configs(0)), q.set_items(a.configs(0)))
    OP("getConfig", "getConfig", GetConfigReq, GetConfigResp, Vec<mt::ConfigItem>, c.getConfig(a.module(0), a.s(1)), { mt::ConfigItem i; i.set_module(a.module(0)); i.set_name(a.s(1)); q.set_item(i); }, r.set_items(a.configs(1)), a.configs(1))
    DONE("setConfig", "setConfig", SetConfigReq, c.setConfig(a.module(0), a.s(1), a.value(2)), { mt::ConfigItem i; i.set_module(a.module(0)); i.set_name(a.s(1)); i.set_value(a.value(2)); q.set_item(i); })
    OP("listConfigs", "listConfigs", ListConfigsReq, ListConfigsResp, Vec<mt::ConfigItem>, c.listConfigs(a.module(0)), q.set_module(a.module(0)), r.set_items(a.configs(1)), a.configs(1))
    DONE("createSnapshot", "createSnapshot", CreateSnapshotReq, c.createSnapshot(), {})
    DONE("dropSnapshot", "dropSnapshot", DropSnapshotReq, c.dropSnapshot(a.s(0)), q.set_name(a.s(0)))
    OP("listSnapshots", "listSnapshots", ListSnapshotsReq, ListSnapshotsResp, Vec<mt::Snapshot>, c.listSnapshots(), {}, ANS({ Vec<mt::Snapshot> x = a.many<mt::Snapshot>(1, [](A a, int k) { mt::Snapshot t; t.set_name(a.s(k)); t.set_status(a.b(0) ? mt::SnapshotStatus::VALID : mt::SnapshotStatus::INVALID); t.set_hosts(a.s(k + 1)); return t; }); r.set_snapshots(x); }), r.get_snapshots())
    DONE("addListener", "addListener", AddListenerReq, c.addListener(a.n(0), a.ltype(1), a.hs(2)), { q.set_space_id(a.n(0)); q.set_type(a.ltype(1)); q.set_hosts(a.hs(2)); })
    DONE("removeListener", "removeListener", RemoveListenerReq, c.removeListener(a.n(0), a.ltype(1)), { q.set_space_id(a.n(0)); q.set_type(a.ltype(1)); })
    OP("listListener", "listListener", ListListenerReq, ListListenerResp, Vec<mt::ListenerInfo>, c.listListener(a.n(0)), q.set_space_id(a.n(0)), ANS({ Vec<mt::ListenerInfo> x = a.many<mt::ListenerInfo>(1, [](A a, int k) { mt::ListenerInfo t; t.set_type(a.ltype(k)); t.set_host(a.h(k)); t.set_part_id(a.n(k)); t.set_status(mt::HostStatus::ONLINE); return t; }); r.set_listeners(x); }), r.get_listeners())
    DONE("signInFTService", "signInFTService", SignInFTServiceReq, c.signInFTService(mt::FTServiceType::ELASTICSEARCH, a.fts(0)), { q.set_type(mt::FTServiceType::ELASTICSEARCH); q.set_clients(a.fts(0)); })
    DONE("signOutFTService", "signOutFTService", SignOutFTServiceReq, c.signOutFTService(), {})
    OP("listFTClients", "listFTClients", ListFTClientsReq, ListFTClientsResp, Vec<mt::FTClient>, c.listFTClients(), {}, r.set_clients(a.fts(0)), a.fts(0))
    DONE("createFTIndex", "createFTIndex", CreateFTIndexReq, c.createFTIndex(a.s(0), a.fti(1)), { q.set_fulltext_index_name(a.s(0)); q.set_index(a.fti(1)); })
    DONE("dropFTIndex", "dropFTIndex", DropFTIndexReq, c.dropFTIndex(a.n(0), a.s(1)), { q.set_space_id(a.n(0)); q.set_fulltext_index_name(a.s(1)); })
    OP("listFTIndexes", "listFTIndexes", ListFTIndexesReq, ListFTIndexesResp, ANS(UM<string, mt::FTIndex>), c.listFTIndexes(), {}, ANS({ UM<string, mt::FTIndex> x; for (int i = 0; i < a.len(0); ++i) x[a.s(i)] = a.fti(i + 1); r.set_indexes(x); }), r.get_indexes())
    OP("createSession", "createSession", CreateSessionReq, CreateSessionResp, mt::CreateSessionResp, c.createSession(a.s(0), a.h(1), a.s(2)), { q.set_user(a.s(0)); q.set_graph_addr(a.h(1)); q.set_client_ip(a.s(2)); }, r.set_session(a.session(3)), r)
    OP("updateSessions", "updateSessions", UpdateSessionsReq, UpdateSessionsResp, mt::UpdateSessionsResp, c.updateSessions(a.sessions(0)), q.set_sessions(a.sessions(0)), ANS({ UM<int64_t, UM<int64_t, mt::QueryDesc>> x; for (int i = 0; i < a.len(1); ++i) x[a.l(i)][a.l(i + 1)] = a.query(i); r.set_killed_queries(x); }), r)
    OP("listSessions", "listSessions", ListSessionsReq, ListSessionsResp, mt::ListSessionsResp, c.listSessions(), {}, r.set_sessions(a.sessions(0)), r)
    OP("getSession", "getSession", GetSessionReq, GetSessionResp, mt::GetSessionResp, c.getSession(a.l(0)), q.set_session_id(a.l(0)), r.set_session(a.session(1)), r)
    OP("removeSession", "removeSession", RemoveSessionReq, ExecResp, mt::ExecResp, c.removeSession(a.l(0)), q.set_session_id(a.l(0)), r.set_leader(a.h(1)), r)
    OP("killQuery", "killQuery", KillQueryReq, ExecResp, mt::ExecResp, [&] { KQ x; for (int i = 0; i < a.len(1); ++i) { x[a.l(i)].insert(a.l(i + 5)); if (a.b(0)) x[a.l(i)].insert(a.l(i + 6)); } return c.killQuery(x); }(), ANS({ UM<int64_t, std::unordered_set<int64_t>> x; for (int i = 0; i < a.len(1); ++i) { x[a.l(i)].insert(a.l(i + 5)); if (a.b(0)) x[a.l(i)].insert(a.l(i + 6)); } q.set_kill_queries(x); }), r.set_leader(a.h(1)), r)
    DONE("addZone", "addZone", AddZoneReq, c.addZone(a.s(0), a.hs(1)), { q.set_zone_name(a.s(0)); q.set_nodes(a.hs(1)); })
    DONE("dropZone", "dropZone", DropZoneReq, c.dropZone(a.s(0)), q.set_zone_name(a.s(0)))
    DONE("addHostIntoZone", "addHostIntoZone", AddHostIntoZoneReq, c.addHostIntoZone(a.h(0), a.s(1)), { q.set_node(a.h(0)); q.set_zone_name(a.s(1)); })
    DONE("dropHostFromZone", "dropHostFromZone", DropHostFromZoneReq, c.dropHostFromZone(a.h(0), a.s(1)), { q.set_node(a.h(0)); q.set_zone_name(a.s(1)); })
    OP("getZone", "getZone", GetZoneReq, GetZoneResp, Vec<HostAddr>, c.getZone(a.s(0)), q.set_zone_name(a.s(0)), r.set_hosts(a.hs(1)), a.hs(1))
    OP("listZones", "listZones", ListZonesReq, ListZonesResp, Vec<mt::Zone>, c.listZones(), {}, ANS({ Vec<mt::Zone> x = a.many<mt::Zone>(1, [](A a, int k) { mt::Zone t; t.set_zone_name(a.s(k)); t.set_nodes(a.hs(k)); return t; }); r.set_zones(x); }), r.get_zones())
    DONE("addGroup", "addGroup", AddGroupReq, c.addGroup(a.s(0), a.ss(1)), { q.set_group_name(a.s(0)); q.set_zone_names(a.ss(1)); })
    DONE("dropGroup", "dropGroup", DropGroupReq, c.dropGroup(a.s(0)), q.set_group_name(a.s(0)))
    DONE("addZoneIntoGroup", "addZoneIntoGroup", AddZoneIntoGroupReq, c.addZoneIntoGroup(a.s(0), a.s(1)), { q.set_zone_name(a.s(0)); q.set_group_name(a.s(1)); })
    DONE("dropZoneFromGroup", "dropZoneFromGroup", DropZoneFromGroupReq, c.dropZoneFromGroup(a.s(0), a.s(1)), { q.set_zone_name(a.s(0)); q.set_group_name(a.s(1)); })
    OP("getGroup", "getGroup", GetGroupReq, GetGroupResp, Vec<string>, c.getGroup(a.s(0)), q.set_group_name(a.s(0)), r.set_zone_names(a.ss(1)), a.ss(1))
    OP("listGroups", "listGroups", ListGroupsReq, ListGroupsResp, Vec<mt::Group>, c.listGroups(), {}, ANS({ Vec<mt::Group> x = a.many<mt::Group>(1, [](A a, int k) { mt::Group t; t.set_group_name(a.s(k)); t.set_zone_names(a.ss(k)); return t; }); r.set_groups(x); }), r.get_groups())
    OP("getStatis", "getStatis", GetStatisReq, GetStatisResp, mt::StatisItem, c.getStatis(a.n(0)), q.set_space_id(a.n(0)), r.set_statis(a.statis(1)), a.statis(1))
    OP("reportTaskFinish", "reportTaskFinish", ReportTaskReq, ExecResp, Code, [&] { auto st = a.statis(2); return c.reportTaskFinish(a.n(0), a.n(1), a.b(1) ? Code::E_UNKNOWN : Code::SUCCEEDED, a.b(0) ? &st : nullptr); }(), { q.set_code(a.b(1) ? Code::E_UNKNOWN : Code::SUCCEEDED); q.set_job_id(a.n(0)); q.set_task_id(a.n(1)); if (a.b(0)) q.set_statis(a.statis(2)); }, {}, Code::SUCCEEDED)
}
struct World {
    Server s; std::shared_ptr<folly::IOThreadPoolExecutor> io; Cluster now; std::unique_ptr<Client> cl;
    World(Ctx& c, int threads) : io(std::make_shared<folly::IOThreadPoolExecutor>(threads)) {
        srv = &s; s.cl = &now; pool = io.get(); lives.clear(); C0 = &c; FLAGS_meta_client_retry_times = 0; folly::mcFuturePump = pumpOne;
        m::MetaClientOptions o; o.localHost_ = HostAddr("me", 7); o.skipConfig_ = true; cl.reset(new Client(io, {HostAddr("127.0.0.1", 45500)}, o));
        mt::MetaServiceAsyncClient::mc_regConfig = [](auto*, const mt::RegConfigReq&) { mt::ExecResp r; r.set_code(Code::SUCCEEDED); return folly::makeFuture<mt::ExecResp>(std::move(r)); };
        mt::MetaServiceAsyncClient::mc_listConfigs = [](auto*, const mt::ListConfigsReq&) { mt::ListConfigsResp r; r.set_code(Code::SUCCEEDED); return folly::makeFuture<mt::ListConfigsResp>(std::move(r)); };
        cl->loadCfg(); mt::MetaServiceAsyncClient::mcEach(Hooker());
    }
    ~World() { cl.reset(); drain(); pool = nullptr; srv = nullptr; lives.clear(); }
};
static void judge(Ctx& c, Live& l) {
    string w = l.name + " variant " + I(l.v) + (l.how == OK_ ? "" : l.how == ERR_ ? " refused" : " with the connection lost");
    MC_CHECK(c, l.sent == 1, "sent", w << ": " << l.sent << " requests sent"); MC_CHECK(c, l.heard == 1, "heard", w << ": the caller heard " << l.heard << " times");
    string e = l.verdict(); MC_CHECK(c, e.empty(), "answer", w << ": " << e); c.step();
}
static void single(Ctx& c) {
    int o = c.choose((int)ops.size(), "operation"), v = c.choose(c.thorough() ? 40 : 9, "arguments"); How h = (How)c.choose(3, "outcome");
    World w(c, 1); auto l = ops[o].start(*w.cl, v); l->how = h; lives.push_back(l.get()); drain(); judge(c, *l); c.outcome(l->fn + I(h));
}
static void pairs(Ctx& c) {
    int o = c.choose((int)ops.size(), "first"), p = c.choose((int)ops.size(), "second"); bool th = c.thorough(); int v = th ? 3 + c.choose(2, "arguments") : 4, u = th ? 5 + c.choose(2, "arguments") : 7; How h = (How)c.choose(2, "first outcome"), g = th ? (How)c.choose(2, "second outcome") : OK_; if (o == p) { u = v; g = h; }   // alike: which is served first cannot be told
    World w(c, 2); auto l = ops[o].start(*w.cl, v); auto k = ops[p].start(*w.cl, u); l->how = h; k->how = g; lives = {l.get(), k.get()};
    auto& bs = pool->mcBases();
    while (true) { vector<int> can; for (int i = 0; i < (int)bs.size(); ++i) if (!bs[i]->q.empty()) can.push_back(i); if (can.empty()) break; bs[can.size() > 1 ? can[c.choose(2, "thread")] : can[0]]->mcRunOne(); }
    judge(c, *l); judge(c, *k);
}
// Key-value calls with names or keys the service cannot take are refused without being sent.
static void refused(Ctx& c) {
    static const vector<string> AB = {"a", "Z", "9", "_", "-", " ", "\n", string(1, '\0'), "\xc3", "/"};
    int n = c.choose(c.thorough() ? 4 : 3, "length"); string seg; bool good = n > 0; for (int i = 0; i < n; ++i) { int k = c.choose((int)AB.size(), "character"); seg += AB[k]; good = good && k < 3; }
    int op = c.choose(6, "operation"); bool e1 = c.flip(), e2 = op == 3 || op == 5 ? c.flip() : false; if (good && !e1 && !e2) good = true; else good = false;
    World w(c, 1); int sent = 0; bool ok = false; string k = e1 ? "" : "k", k2 = e2 ? "" : "l";
    typedef mt::MetaServiceAsyncClient C; mt::ExecResp done; done.set_code(Code::SUCCEEDED);
#define ANSWER(fn, Q, R) C::mc_##fn = [&](C*, const mt::Q&) { ++sent; mt::R r; r.set_code(Code::SUCCEEDED); return folly::makeFuture<mt::R>(std::move(r)); };
    ANSWER(multiPut, MultiPutReq, ExecResp) ANSWER(get, GetReq, GetResp) ANSWER(multiGet, MultiGetReq, MultiGetResp) ANSWER(scan, ScanReq, ScanResp) ANSWER(remove, RemoveReq, ExecResp) ANSWER(removeRange, RemoveRangeReq, ExecResp)
    switch (op) {
        case 0: { vector<std::pair<string, string>> p; if (!e1) p.push_back({"k", ""}); ok = w.cl->multiPut(seg, p).get().ok(); break; }
        case 1: ok = w.cl->get(seg, k).get().ok(); break; case 2: { vector<string> p; if (!e1) p.push_back("k"); ok = w.cl->multiGet(seg, p).get().ok(); break; }
        case 3: ok = w.cl->scan(seg, k, k2).get().ok(); break; case 4: ok = w.cl->remove(seg, k).get().ok(); break; case 5: ok = w.cl->removeRange(seg, k, k2).get().ok(); break;
    }
    c.step(); MC_CHECK(c, sent == (good ? 1 : 0) && ok == good, "arguments", "operation " << op << " on segment '" << seg << "' with" << (e1 ? " nothing" : " a key") << (e2 ? " and no end" : "") << ": " << sent << " requests sent, " << (ok ? "success" : "failure") << " reported");
    c.outcome(I(op) + I(good));
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]); FLAGS_minloglevel = 0; table();
    return mc::run(argc, argv, "C48", {
        {"single", single, false, "every operation with 9 (40) sets of arguments, answered, refused or with the connection lost"},
        {"pairs", pairs, false, "every pair of operations in flight together, every order of the steps of two IO threads"},
        {"refused", refused, false, "key-value calls with every segment of up to 2 (3) of 10 characters and empty arguments"},
    }, {"in-process metadata server behind the generated client interface"});
}
