// C42: the metadata cache mirrors the last successful load and its listener hears each change once.
#include "metabox.h"
#include <glog/logging.h>
using namespace metabox; using mc::Ctx; using std::ostringstream;
DECLARE_int32(meta_client_retry_times);
static const HostAddr H0("h0", 1), H1("h1", 2), H2("h2", 3);
static const HostAddr HOSTS[] = {H0, H1, H2};
typedef map<string, string> Obs;
static string I(int64_t v) { return std::to_string(v); }
static const int SIDS[] = {1, 2, 3, 9}; static const char* SNAMES[] = {"a", "b", "c"}; static const int PARTS[] = {1, 2, 3};
static const int TIDS[] = {11, 12}; static const char* TNAMES[] = {"t", "u"}; static const int EIDS[] = {21, 22}; static const char* ENAMES[] = {"e", "t"};
static const int XIDS[] = {31, 32, 33}; static const char* XNAMES[] = {"i", "j"}; static const char* USERS[] = {"root", "bob"};
static string fieldsOf(const m::NebulaSchemaProvider* p) {
    if (!p) return "none"; string s = "v" + I(p->getVersion()) + "("; for (size_t i = 0; i < p->getNumFields(); ++i) { auto* f = p->field((int64_t)i); s += string(f->name()) + ":" + I((int)f->type()) + ":" + I((int64_t)f->size()) + (f->nullable() ? "?" : "") + " "; }
    auto t = p->getTTLInfo(); if (t.ok()) s += "ttl " + t.value().first + I(t.value().second); return s + ")";
}
static string fieldsOf(const SchemaM& t, int ver) {
    if (ver < 0) ver = t.versions - 1; if (ver >= t.versions) return "none"; m::NebulaSchemaProvider p(ver); mt::Schema s = schemaOf(t, ver);
    for (auto& c : s.get_columns()) p.addField(c.get_name(), c.get_type().get_type(), c.get_type().type_length_ref().has_value() ? *c.get_type().get_type_length() : 0, c.nullable_ref().has_value() && *c.get_nullable());
    p.setProp(s.get_schema_prop()); return fieldsOf(&p);
}
static string idx(const mt::IndexItem& i) { auto& s = i.get_schema_id(); bool e = s.getType() == mt::SchemaID::Type::edge_type; return I(i.get_index_id()) + i.get_index_name() + (e ? "E" + I(s.get_edge_type()) : "T" + I(s.get_tag_id())); }
static string desc(const mt::SpaceDesc& d) { ostringstream o; o << d.get_space_name() << d.get_partition_num() << "x" << d.get_replica_factor() << d.get_charset_name() << d.get_collate_name() << (int)d.get_vid_type().get_type() << (d.group_name_ref().has_value() ? *d.get_group_name() : "-") << (d.isolation_level_ref().has_value() ? I((int)*d.get_isolation_level()) : "-"); return o.str(); }
template <class T, class F> string sorted(const T& v, F f) { set<string> o; string r; std::multiset<string> ms; for (auto& x : v) ms.insert(f(x)); for (auto& s : ms) r += s + " "; return r; }
static string lh(const m::ListenerHosts& l) { return I((int)l.type_) + "<" + S(l.peers_) + ">"; }
template <class T, class F> string ask(StatusOr<T>&& r, F f) { return r.ok() ? f(r.value()) : string("none"); }
static string id(const string& s) { return s; }
static string parts(const m::PartsMap& p) { return sorted(p, [](auto& s) { return I(s.first) + "{" + sorted(s.second, [&](auto& x) { return I(x.first) + (x.second.spaceId_ == s.first && x.second.partId_ == x.first ? "=" : "!") + S(x.second.hosts_); }) + "}"; }); }
static string lmap(const m::ListenersMap& p) { return sorted(p, [](auto& s) { return I(s.first) + "{" + sorted(s.second, [&](auto& x) { return I(x.first) + sorted(x.second, lh); }) + "}"; }); }

// Everything a client can ask of the cache.
static Obs observe(Client& c) {
    Obs o;
    for (auto n : SNAMES) o[string("id of ") + n] = ask(c.getSpaceIdByNameFromCache(n), I);
    for (auto& h : HOSTS) { o["parts on " + S(h)] = parts(c.getPartsMapFromCache(h)); o["listeners on " + S(h)] = ask(c.getListenersByHostFromCache(h), lmap); }
    o["hosts"] = ask(c.getStorageHosts(), [](auto& v) { return S(v); });
    for (int s : SIDS) {
        string sp = "space " + I(s) + " ";
        o[sp + "name"] = ask(c.getSpaceNameByIdFromCache(s), id); o[sp + "desc"] = ask(c.getSpaceDesc(s), desc); o[sp + "vid length"] = ask(c.getSpaceVidLen(s), I); o[sp + "vid type"] = ask(c.getSpaceVidType(s), [](auto t) { return I((int)t); });
        o[sp + "isolation"] = ask(c.getIsolationLevel(s), [](auto t) { return I((int)t); }); o[sp + "parts"] = ask(c.partsNum(s), I);
        o[sp + "edges"] = ask(c.getAllEdgeFromCache(s), [](auto& v) { return sorted(v, id); });
        for (int p : PARTS) {
            string pp = sp + "part " + I(p) + " "; o[pp + "hosts"] = ask(c.getPartHostsFromCache(s, p), [&](auto& x) { return (x.spaceId_ == s && x.partId_ == p ? "" : "!") + S(x.hosts_); }); o[pp + "term"] = I(c.getTermFromCache(s, p));
            o[pp + "listener"] = ask(c.getListenerHostsBySpacePartType(s, p, mt::ListenerType::ELASTICSEARCH), [](auto& h) { return S(h); }); o[pp + "listeners"] = ask(c.getListenerHostTypeBySpacePartType(s, p), [](auto& v) { return sorted(v, [](auto& x) { return S(x.first) + "/" + I((int)x.second); }); });
            for (auto& h : HOSTS) o[pp + "on " + S(h)] = c.checkPartExistInCache(h, s, p).toString();
        }
        for (auto& h : HOSTS) { o[sp + "on " + S(h)] = c.checkSpaceExistInCache(h, s).toString(); o[sp + "listeners on " + S(h)] = ask(c.getListenersBySpaceHostFromCache(s, h), [](auto& v) { return sorted(v, [](auto& x) { return I(x.first) + "/" + I((int)x.second); }); }); }
        for (int t : TIDS) { string tp = sp + "tag " + I(t) + " "; o[tp + "name"] = ask(c.getTagNameByIdFromCache(s, t), id); o[tp + "version"] = ask(c.getLatestTagVersionFromCache(s, t), I);
            for (int v = -1; v < 3; ++v) o[tp + "schema " + I(v)] = ask(c.getTagSchemaFromCache(s, t, v), [](auto& p) { return fieldsOf(p.get()); }); }
        for (int t : EIDS) { string tp = sp + "edge " + I(t) + " "; o[tp + "name"] = ask(c.getEdgeNameByTypeFromCache(s, t), id); o[tp + "version"] = ask(c.getLatestEdgeVersionFromCache(s, t), I);
            for (int v = -1; v < 3; ++v) o[tp + "schema " + I(v)] = ask(c.getEdgeSchemaFromCache(s, t, v), [](auto& p) { return fieldsOf(p.get()); }); }
        for (auto n : TNAMES) o[sp + "tag " + n] = ask(c.getTagIDByNameFromCache(s, n), I);
        for (auto n : ENAMES) o[sp + "edge " + n] = ask(c.getEdgeTypeByNameFromCache(s, n), I);
        auto all = [](auto& v) { return sorted(v, [](auto& x) { string r = I(x.first) + ":"; for (auto& p : x.second) r += fieldsOf(p.get()); return r; }); };
        auto latest = [](auto& v) { return sorted(v, [](auto& x) { return I(x.first) + ":" + fieldsOf(x.second.get()); }); };
        o[sp + "all tags"] = ask(c.getAllVerTagSchema(s), all); o[sp + "all edges"] = ask(c.getAllVerEdgeSchema(s), all); o[sp + "latest tags"] = ask(c.getAllLatestVerTagSchema(s), latest); o[sp + "latest edges"] = ask(c.getAllLatestVerEdgeSchemaFromCache(s), latest);
        auto one = [](auto& p) { return p ? idx(*p) : string("null"); }; auto many = [](auto& v) { return sorted(v, [](auto& p) { return p ? idx(*p) : string("null"); }); };
        for (auto n : XNAMES) { o[sp + "tag index " + n] = ask(c.getTagIndexByNameFromCache(s, n), one); o[sp + "edge index " + n] = ask(c.getEdgeIndexByNameFromCache(s, n), one); o[sp + "tag of index " + n] = ask(c.getRelatedTagIDByIndexNameFromCache(s, n), I); o[sp + "edge of index " + n] = ask(c.getRelatedEdgeTypeByIndexNameFromCache(s, n), I); }
        for (int x : XIDS) { o[sp + "tag index " + I(x)] = ask(c.getTagIndexFromCache(s, x), one); o[sp + "edge index " + I(x)] = ask(c.getEdgeIndexFromCache(s, x), one); o[sp + "is tag index " + I(x)] = c.checkTagIndexed(s, x).toString(); o[sp + "is edge index " + I(x)] = c.checkEdgeIndexed(s, x).toString(); }
        o[sp + "tag indexes"] = ask(c.getTagIndexesFromCache(s), many); o[sp + "edge indexes"] = ask(c.getEdgeIndexesFromCache(s), many);
        o["~ft space " + I(s)] = ask(c.getFTIndexBySpaceFromCache(s), [](auto& v) { return sorted(v, [](auto& x) { return x.first + I(x.second.get_space_id()); }); });
        for (int t : {11, 21}) o["~ft schema " + I(s) + " " + I(t)] = ask(c.getFTIndexBySpaceSchemaFromCache(s, t), [](auto& x) { return x.first + I(x.second.get_space_id()); });
        for (auto n : {"f", "g"}) o["~ft name " + I(s) + n] = ask(c.getFTIndexByNameFromCache(s, n), [](auto& x) { return I(x.get_space_id()); });
    }
    o["leaders"] = ask(c.getLeaderInfo(), [](auto& l) { return sorted(l.leaderMap_, [](auto& x) { return I(x.first.first) + "/" + I(x.first.second) + "=" + S(x.second); }); });
    for (auto u : USERS) { string up = string("~user ") + u; o[up + " roles"] = sorted(c.getRolesByUserFromCache(u), [](auto& r) { return r.get_user_id() + I(r.get_space_id()) + ":" + I((int)r.get_role_type()); }); o[up + " known"] = I(c.checkShadowAccountFromCache(u)); for (auto p : {"x", "y"}) o[up + " pw " + p] = I(c.authCheckFromCache(u, p)); }
    o["~ftc"] = ask(c.getFTClientsFromCache(), [](auto& v) { string s; for (auto& x : v) s += S(x.get_host()) + (x.user_ref().has_value() ? *x.get_user() + *x.get_pwd() : "-") + " "; return s; });
    o["~fti"] = ask(c.getFTIndexesFromCache(), [](auto& v) { return sorted(v, [](auto& x) { return x.first + I(x.second.get_space_id()); }); });
    return o;
}
static const SpaceM* find(const Cluster& k, int s) { for (auto& x : k.spaces) if (x.id == s) return &x; return nullptr; }
static bool has(const vector<HostAddr>& v, const HostAddr& h) { return std::find(v.begin(), v.end(), h) != v.end(); }
static m::PartsMap partsOn(const Cluster& k, const HostAddr& h) { m::PartsMap r; for (auto& s : k.spaces) for (auto& p : s.parts) if (has(p.second, h)) r[s.id][p.first] = m::PartHosts{s.id, p.first, p.second}; return r; }
static m::ListenersMap listenersOn(const Cluster& k, const HostAddr& h) { m::ListenersMap r; for (auto& s : k.spaces) for (auto& l : s.listeners) if (l.host == h && s.parts.count(l.part)) r[s.id][l.part].emplace_back(l.type, s.parts.at(l.part)); return r; }
// The same questions answered from the model.
static Obs expected(const Cluster& k) {
    Obs o; string N = "none";
    for (auto n : SNAMES) { auto& r = o[string("id of ") + n] = N; for (auto& s : k.spaces) if (s.name == n) r = I(s.id); }
    for (auto& h : HOSTS) { o["parts on " + S(h)] = parts(partsOn(k, h)); o["listeners on " + S(h)] = lmap(listenersOn(k, h)); }
    { string v; for (auto& h : k.hosts) v += S(h.addr) + " "; o["hosts"] = v; }
    for (int s : SIDS) {
        string sp = "space " + I(s) + " "; const SpaceM* x = find(k, s);
        mt::SpaceDesc d; if (x) d = descOf(*x);
        o[sp + "name"] = x ? x->name : N; o[sp + "desc"] = x ? desc(d) : N; auto vt = d.get_vid_type().get_type(); int len = x && d.get_vid_type().type_length_ref().has_value() ? *d.get_vid_type().get_type_length() : 0;
        o[sp + "vid length"] = x && len > 0 ? I(len) : N; o[sp + "vid type"] = x && (vt == mt::PropertyType::INT64 || vt == mt::PropertyType::FIXED_STRING) ? I((int)vt) : N;
        o[sp + "isolation"] = x ? I(x->desc / 2 % 2) : N; o[sp + "parts"] = x ? I((int64_t)x->parts.size()) : N;
        o[sp + "edges"] = x ? sorted(x->edges, [](auto& e) { return e.name; }) : N;
        for (int p : PARTS) {
            string pp = sp + "part " + I(p) + " "; const vector<HostAddr>* hs = x && x->parts.count(p) ? &x->parts.at(p) : nullptr;
            o[pp + "hosts"] = hs ? S(*hs) : N; o[pp + "term"] = I(x && x->haveTerms && x->terms.count(p) ? x->terms.at(p) : -1);
            string one = N; std::multiset<string> ms; if (x) for (auto& l : x->listeners) if (l.part == p) { if (l.type == mt::ListenerType::ELASTICSEARCH) one = S(l.host); ms.insert(S(l.host) + "/" + I((int)l.type)); }
            o[pp + "listener"] = one; o[pp + "listeners"] = ms.empty() ? N : sorted(ms, id);
            for (auto& h : HOSTS) { bool any = false; if (x) for (auto& q : x->parts) if (has(q.second, h)) any = true; o[pp + "on " + S(h)] = (!x ? Status::SpaceNotFound() : !any ? Status::HostNotFound() : hs && has(*hs, h) ? Status::OK() : Status::PartNotFound()).toString(); }
        }
        for (auto& h : HOSTS) {
            bool any = false; if (x) for (auto& q : x->parts) if (has(q.second, h)) any = true; o[sp + "on " + S(h)] = (!x ? Status::SpaceNotFound() : any ? Status::OK() : Status::PartNotFound()).toString();
            std::multiset<string> ms; if (x) for (auto& l : x->listeners) if (l.host == h) ms.insert(I(l.part) + "/" + I((int)l.type)); o[sp + "listeners on " + S(h)] = ms.empty() ? N : sorted(ms, id);
        }
        auto schemas = [&](const char* kind, const vector<SchemaM>& v, const int* ids, const char** names) {
            for (int i = 0; i < 2; ++i) { string tp = sp + kind + " " + I(ids[i]) + " "; const SchemaM* t = nullptr; for (auto& y : v) if (y.id == ids[i]) t = &y; o[tp + "name"] = t ? t->name : N; o[tp + "version"] = t ? I(t->versions - 1) : N; for (int q = -1; q < 3; ++q) o[tp + "schema " + I(q)] = t ? fieldsOf(*t, q) : N; }
            for (int i = 0; i < 2; ++i) { auto& r = o[sp + kind + " " + names[i]] = N; for (auto& y : v) if (y.name == names[i]) r = I(y.id); }
            o[sp + "all " + kind + "s"] = x ? sorted(v, [](auto& t) { string r = I(t.id) + ":"; for (int q = 0; q < t.versions; ++q) r += fieldsOf(t, q); return r; }) : N; o[sp + "latest " + kind + "s"] = x ? sorted(v, [](auto& t) { return I(t.id) + ":" + fieldsOf(t, -1); }) : N;
        };
        schemas("tag", x ? x->tags : vector<SchemaM>(), TIDS, TNAMES); schemas("edge", x ? x->edges : vector<SchemaM>(), EIDS, ENAMES);
        auto indexes = [&](const char* kind, const vector<IndexM>& v, bool edge) {
            for (auto n : XNAMES) { string one = N, rel = N; for (auto& y : v) if (y.name == n) { one = idx(indexOf(y, edge)); rel = I(y.schema); } o[sp + kind + " index " + n] = one; o[sp + kind + " of index " + n] = rel; }
            for (int q : XIDS) { string one = N; for (auto& y : v) if (y.id == q) one = idx(indexOf(y, edge)); o[sp + kind + " index " + I(q)] = one; o[sp + "is " + kind + " index " + I(q)] = (!x ? Status::SpaceNotFound() : one == N ? Status::IndexNotFound() : Status::OK()).toString(); }
            o[sp + kind + " indexes"] = x ? sorted(v, [&](auto& y) { return idx(indexOf(y, edge)); }) : N;
        };
        indexes("tag", x ? x->tagIndexes : vector<IndexM>(), false); indexes("edge", x ? x->edgeIndexes : vector<IndexM>(), true);
        std::multiset<string> ms; for (auto& f : k.fti) if (f.second.space == s) ms.insert(f.first + I(s)); o["~ft space " + I(s)] = sorted(ms, id);
        for (int t : {11, 21}) { auto& r = o["~ft schema " + I(s) + " " + I(t)] = N; for (auto& f : k.fti) if (f.second.space == s && f.second.schema == t) r = f.first + I(s); }
        for (auto n : {"f", "g"}) { auto& r = o["~ft name " + I(s) + n] = N; for (auto& f : k.fti) if (f.second.space == s && f.first == n) r = I(s); }
    }
    { std::multiset<string> ms; for (auto& h : k.hosts) for (auto& l : h.leads) for (auto& s : k.spaces) if (s.name == l.first) for (int p : l.second) ms.insert(I(s.id) + "/" + I(p) + "=" + S(h.addr)); o["leaders"] = sorted(ms, id); }
    for (auto u : USERS) { string up = string("~user ") + u; auto it = k.users.find(u); o[up + " roles"] = it == k.users.end() ? "" : sorted(it->second.roles, [&](auto& r) { return string(u) + I(r.first) + ":" + I((int)r.second); }); o[up + " known"] = I(it != k.users.end()); for (auto p : {"x", "y"}) o[up + " pw " + p] = I(it != k.users.end() && it->second.pwd == p); }
    { string v; for (auto& h : k.ft) v += S(h) + (h.port % 2 ? "up" + I(h.port) : "-") + " "; o["~ftc"] = v; } o["~fti"] = sorted(k.fti, [](auto& f) { return f.first + I(f.second.space); });
    return o;
}
static void same(Ctx& c, const Obs& got, const Obs& want, const string& what, const char* key) {
    for (auto& w : want) { auto it = got.find(w.first); MC_CHECK(c, it != got.end() && it->second == w.second, key, what << ": " << w.first << " is " << (it == got.end() ? "?" : it->second) << ", expected " << w.second); }
    c.step(); string all; for (auto& w : want) all += w.second + "|"; c.state(all);
}

// A store that keeps what it is told, and objects to anything out of order.
struct Store : m::MetaChangedListener {
    Ctx& c; string what; set<int> spaces, lspaces; map<std::pair<int, int>, vector<HostAddr>> parts; map<std::pair<int, int>, map<int, vector<HostAddr>>> ls; map<std::pair<int, int>, vector<HostAddr>> remote;
    vector<string> events; vector<std::pair<int, std::unordered_map<string, string>>> options;
    explicit Store(Ctx& x) : c(x) {}
    void onSpaceAdded(int s, bool l) override { events.push_back("+space " + I(s) + (l ? "l" : "")); MC_CHECK(c, (l ? lspaces : spaces).insert(s).second, "space-twice", what << ": space " << s << " added though it is there"); }
    void onSpaceRemoved(int s, bool l) override {
        events.push_back("-space " + I(s) + (l ? "l" : "")); MC_CHECK(c, (l ? lspaces : spaces).erase(s), "space-gone-twice", what << ": space " << s << " removed though it is not there");
        if (l) { for (auto& x : ls) MC_CHECK(c, x.first.first != s || x.second.empty(), "space-before-listener", what << ": space " << s << " removed before its listeners"); } else for (auto& x : parts) MC_CHECK(c, x.first.first != s, "space-before-part", what << ": space " << s << " removed before its part " << x.first.second);
    }
    void onSpaceOptionUpdated(int s, const std::unordered_map<string, string>& o) override { options.push_back({s, o}); }
    void onPartAdded(const m::PartHosts& p) override { events.push_back("+part " + I(p.spaceId_) + "/" + I(p.partId_)); MC_CHECK(c, spaces.count(p.spaceId_), "part-before-space", what << ": part " << p.partId_ << " added before its space " << p.spaceId_); MC_CHECK(c, parts.insert(std::make_pair(std::make_pair(p.spaceId_, p.partId_), p.hosts_)).second, "part-twice", what << ": part " << p.partId_ << " added twice"); }
    void onPartRemoved(int s, int p) override { events.push_back("-part " + I(s) + "/" + I(p)); MC_CHECK(c, spaces.count(s) && parts.erase(std::make_pair(s, p)), "part-gone-twice", what << ": part " << s << "/" << p << " removed though it is not there"); }
    void onPartUpdated(const m::PartHosts& p) override { events.push_back("~part " + I(p.spaceId_) + "/" + I(p.partId_)); auto it = parts.find({p.spaceId_, p.partId_}); MC_CHECK(c, it != parts.end() && it->second != p.hosts_, "part-update", what << ": part " << p.spaceId_ << "/" << p.partId_ << " updated, though it is not there or is the same"); it->second = p.hosts_; }
    void fetchLeaderInfo(std::unordered_map<int, vector<mt::LeaderInfo>>& l) override { (void)l; }
    void onListenerAdded(int s, int p, const m::ListenerHosts& l) override { events.push_back("+listener " + I(s) + "/" + I(p)); MC_CHECK(c, lspaces.count(s), "listener-before-space", what << ": listener added before its space " << s); MC_CHECK(c, (ls[{s, p}].insert({(int)l.type_, l.peers_}).second), "listener-twice", what << ": a listener of part " << s << "/" << p << " is added while one of its type is there"); }
    void onListenerRemoved(int s, int p, mt::ListenerType t) override { events.push_back("-listener " + I(s) + "/" + I(p)); MC_CHECK(c, (lspaces.count(s) && ls[{s, p}].erase((int)t)), "listener-gone-twice", what << ": a listener of part " << s << "/" << p << " is removed though it is not there"); }
    void onCheckRemoteListeners(int s, int p, const vector<HostAddr>& r) override { auto v = r; std::sort(v.begin(), v.end()); MC_CHECK(c, (remote.insert({{s, p}, v}).second), "remote-twice", what << ": remote listeners of part " << s << "/" << p << " told twice"); }
    void clear() { events.clear(); remote.clear(); options.clear(); }
};
// What the store must have been told between two clusters, and hold afterwards.
static void heard(Ctx& c, Store& st, const Cluster& a, const Cluster& b, const string& what) {
    auto pa = partsOn(a, H0), pb = partsOn(b, H0); auto la = listenersOn(a, H0), lb = listenersOn(b, H0); std::multiset<string> want, got(st.events.begin(), st.events.end());
    set<int> ids; for (auto& x : pa) ids.insert(x.first); for (auto& x : pb) ids.insert(x.first); for (auto& x : la) ids.insert(x.first); for (auto& x : lb) ids.insert(x.first);
    for (int s : ids) {
        if (pa.count(s) != pb.count(s)) want.insert((pb.count(s) ? "+space " : "-space ") + I(s)); if (la.count(s) != lb.count(s)) want.insert((lb.count(s) ? "+space " : "-space ") + I(s) + "l");
        for (int p : PARTS) {
            bool x = pa.count(s) && pa[s].count(p), y = pb.count(s) && pb[s].count(p); string n = I(s) + "/" + I(p); if (x != y) want.insert((y ? "+part " : "-part ") + n); else if (x && pa[s][p] != pb[s][p]) want.insert("~part " + n);
            vector<m::ListenerHosts> u, v; if (la.count(s) && la[s].count(p)) u = la[s].at(p); if (lb.count(s) && lb[s].count(p)) v = lb[s].at(p);
            for (auto& l : u) if (std::find(v.begin(), v.end(), l) == v.end()) want.insert("-listener " + n); for (auto& l : v) if (std::find(u.begin(), u.end(), l) == u.end()) want.insert("+listener " + n);
        }
    }
    string g, w; for (auto& e : got) g += e + ", "; for (auto& e : want) w += e + ", ";
    MC_CHECK(c, got == want, "notifications", what << ": told " << g << "expected " << w);
    map<std::pair<int, int>, vector<HostAddr>> hp; map<std::pair<int, int>, map<int, vector<HostAddr>>> hl; map<std::pair<int, int>, vector<HostAddr>> rem;
    for (auto& s : pb) for (auto& p : s.second) { hp[{s.first, p.first}] = p.second.hosts_; auto& r = rem[{s.first, p.first}]; for (auto& l : find(b, s.first)->listeners) if (l.part == p.first) r.push_back(l.host); std::sort(r.begin(), r.end()); }
    for (auto& s : lb) for (auto& p : s.second) for (auto& l : p.second) hl[{s.first, p.first}][(int)l.type_] = l.peers_;
    for (auto it = st.ls.begin(); it != st.ls.end();) if (it->second.empty()) it = st.ls.erase(it); else ++it;
    MC_CHECK(c, st.parts == hp, "store-parts", what << ": the parts held after the notifications differ from those of the cluster"); MC_CHECK(c, st.ls == hl, "store-listeners", what << ": the listeners held after the notifications differ from those of the cluster"); MC_CHECK(c, st.remote == rem, "remote-listeners", what << ": the remote listeners told differ from those of the cluster");
}

struct World {
    Server s; std::shared_ptr<folly::IOThreadPoolExecutor> io; std::unique_ptr<Client> cl; Cluster now;
    World(Ctx& c) : io(std::make_shared<folly::IOThreadPoolExecutor>(1)) {
        srv = &s; s.cl = &now; pool = io.get(); waited.clear(); install(); FLAGS_meta_client_retry_times = 0;
        m::MetaClientOptions o; o.localHost_ = H0; o.skipConfig_ = true; cl.reset(new Client(io, {HostAddr("127.0.0.1", 45500)}, o));
    }
    ~World() { cl.reset(); drain(); pool = nullptr; srv = nullptr; }
};
static int pickOf(Ctx& c, int n, const char* l) { return n == 1 ? 0 : c.choose(n, l); }
// One cluster out of a family: places of parts and listeners of one space, and another space that comes and goes.
static vector<SpaceM> partVariants(bool two) {
    typedef map<int, vector<HostAddr>> P; auto ES = mt::ListenerType::ELASTICSEARCH; auto UN = mt::ListenerType::UNKNOWN;
    vector<P> ps = {{{1, {H0}}}, {{1, {H0, H1}}}, {{1, {H1, H0}}, {2, {H0}}}, {{1, {H1}}, {2, {H1, H2}}}, {{1, {H1}}, {2, {H0}}, {3, {H0, H1, H2}}}, {}};
    vector<vector<ListenerM>> ls = {{}, {{H0, 1, ES}}, {{H0, 1, ES}, {H0, 2, ES}}, {{H0, 1, UN}, {H0, 1, ES}, {H1, 2, ES}}, {{H2, 1, ES}, {H0, 3, ES}}, {{H0, 1, ES}, {H0, 1, UN}}, {{H0, 1, UN}}};
    vector<SpaceM> v; for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ls.size(); ++j) { SpaceM s; s.id = two ? 2 : 1; s.name = two ? "b" : "a"; s.parts = ps[i]; s.listeners = ls[j]; s.haveTerms = i % 2; for (auto& p : s.parts) s.terms[p.first] = 5 + p.first + (int)i; v.push_back(s); }
    return v;
}
static Cluster placed(Ctx& c, bool rich) {
    static const vector<SpaceM> V = partVariants(false), W = partVariants(true); Cluster k;
    int i = c.choose((int)V.size() + 1, "first space"); if (i) { k.spaces.push_back(V[i - 1]); if (rich && c.flip()) { k.spaces[0].id = 3; } }
    if (rich) { int j = c.choose(4, "second space"); if (j) k.spaces.push_back(W[(j - 1) * 9]); }
    k.hosts = {{H0, {}}, {H1, {}}}; return k;
}
static void load(Ctx& c, World& w, Store* st, const Cluster& k, const string& what) { w.now = k; if (st) { st->clear(); st->what = what; } MC_CHECK(c, w.cl->loadData(), "load", what << ": the load fails though every question is answered"); }
static void places(Ctx& c) {
    World w(c); Store st(c); w.cl->registerListener(&st); Cluster a, b; int n = c.thorough() ? 3 : 2;
    if (n == 3) n = 2 + c.choose(2, "loads");
    for (int i = 0; i < n; ++i) { a = b; b = placed(c, n == 2 && c.thorough()); load(c, w, &st, b, "load " + I(i + 1)); heard(c, st, a, b, "load " + I(i + 1)); }
    same(c, observe(*w.cl), expected(b), "after the last load", "cache"); c.outcome(st.events.empty() ? "no change" : "changes");
}
// Names, schemas and indexes that appear, change, swap names and go.
static Cluster named(Ctx& c, bool few) {
    Cluster k; typedef vector<SchemaM> T; typedef vector<IndexM> X;
    static const vector<T> TAGS = {{}, {{11, "t", 0, 1}}, {{11, "t", 0, 2}, {12, "u", 1, 1}}, {{12, "t", 2, 3}}, {{11, "u", 0, 2}, {12, "t", 3, 1}}};
    static const vector<X> IDX = {{}, {{31, "i", 0}}, {{32, "i", 1}}, {{31, "j", 0}, {32, "i", 0}}};
    int sp = c.choose(4, "spaces");   // none, one, the same name under another id, two
    if (sp == 0) return k;
    int t = c.choose((int)TAGS.size(), "tags"), e = few ? t % 3 : c.choose(3, "edges"), x = c.choose((int)IDX.size(), "tag indexes"), y = few ? (x + t) % 3 : c.choose(3, "edge indexes");
    SpaceM s; s.id = sp == 2 ? 3 : 1; s.name = "a"; s.desc = t + x; s.parts = {{1, {H0}}}; s.tags = TAGS[t]; for (auto& i : TAGS[(t + e) % 5]) s.edges.push_back({i.id + 10, i.id == 11 ? "e" : "t", i.kind + e, i.versions}); if (e == 2) s.edges.clear();
    for (auto& i : IDX[x]) s.tagIndexes.push_back({i.id, i.name, 11 + i.schema}); for (auto& i : IDX[y]) s.edgeIndexes.push_back({i.id == 31 ? 33 : i.id, i.name, 21 + i.schema});
    k.spaces.push_back(s); if (sp == 3) { SpaceM r = s; r.id = 2; r.name = "b"; r.desc = s.desc + 1; r.tags = TAGS[(t + 1) % 5]; r.tagIndexes = s.edgeIndexes; r.edgeIndexes.clear(); k.spaces.push_back(r); }
    k.hosts = {{H0, {}}}; return k;
}
static void names(Ctx& c) {
    World w(c); Cluster k; for (int i = 0; i < 2; ++i) { k = named(c, i == 0 && !c.thorough()); load(c, w, nullptr, k, "load " + I(i + 1)); }
    same(c, observe(*w.cl), expected(k), "after the last load", "cache");
}
// Leaders, hosts, users and full-text services.
static Cluster peopled(Ctx& c, bool few) {
    Cluster k; typedef vector<HostM> H; SpaceM a, b; a.id = 1; a.name = "a"; a.parts = {{1, {H0, H1, H2}}, {2, {H1, H0}}}; b = a; b.id = 2; b.name = "b";
    int sp = c.choose(5, "spaces"), hs; switch (sp) { case 0: break; case 1: k.spaces = {a}; break; case 2: a.id = 3; k.spaces = {a}; break; case 3: k.spaces = {a, b}; break; default: std::swap(a.id, b.id); k.spaces = {a, b}; }
    static const vector<H> HS = {{}, {{H0, {{"a", {1, 2}}}}, {H1, {}}}, {{H1, {{"a", {1}}, {"b", {2}}}}, {H2, {{"a", {2}}, {"gone", {1}}}}}, {{H2, {{"b", {1, 2}}}}}}; k.hosts = HS[hs = c.choose(4, "hosts")];
    typedef mt::RoleType R; typedef map<string, UserM> U;
    static const vector<U> US = {{}, {{"root", {"x", {{0, R::GOD}}}}}, {{"root", {"y", {}}}, {"bob", {"x", {{1, R::ADMIN}, {2, R::GUEST}}}}}, {{"bob", {"y", {{1, R::USER}}}}}}; k.users = US[few ? hs : c.choose(4, "users")];
    switch (few ? sp % 3 : c.choose(3, "full text")) { case 0: break; case 1: k.ft = {H1}; k.fti = {{"f", {1, false, 11}}}; break; default: k.ft = {H0, H2}; k.fti = {{"f", {2, true, 21}}, {"g", {1, false, 11}}}; }
    return k;
}
static void people(Ctx& c) {
    World w(c); Cluster k; Obs first = observe(*w.cl); for (auto& x : first) MC_CHECK(c, x.second == "none" || x.second == "" || x.second == "0" || x.second == "-1" || x.first.find(" on ") != string::npos || x.first.find("is ") != string::npos, "not-ready", "before any load: " << x.first << " is " << x.second);
    for (int i = 0; i < 2; ++i) { k = peopled(c, i == 0 && !c.thorough()); load(c, w, nullptr, k, "load " + I(i + 1)); }
    same(c, observe(*w.cl), expected(k), "after the last load", "cache");
}
// One question of a load goes unanswered in each possible way: nothing of the old answers changes, and the next load succeeds.
static void failing(Ctx& c) {
    World w(c); Store st(c); w.cl->registerListener(&st); Cluster a, b;
    bool before = c.choose(2, "loaded before"); auto two = [&](int v) { Cluster k; static const vector<SpaceM> V = partVariants(false), W = partVariants(true);
        SpaceM s = V[v ? 16 : 15], t = W[v ? 3 : 17]; s.desc = v; s.tags = {{11, v ? "u" : "t", v, 1 + v}}; s.edges = {{21, "e", v, 2 - v}}; s.tagIndexes = {{31 + v, "i", 11}}; s.edgeIndexes = {{33, v ? "j" : "i", 21}}; k.spaces = {s, t}; if (v) k.spaces[0].id = 3;
        k.hosts = {{v ? H1 : H0, {{"a", {1}}, {"b", {2}}}}}; k.users = {{"root", {v ? "y" : "x", {{1, mt::RoleType::GOD}}}}}; if (v) k.users["bob"] = {"x", {}}; k.ft = {v ? H1 : H2}; k.fti = {{v ? "f" : "g", {1, false, 11}}}; return k; };
    a = two(0); b = two(1); if (before) load(c, w, &st, a, "the first load"); else a = Cluster();
    Obs old = observe(*w.cl); w.s.calls.clear(); int at = c.choose(25, "question"); Out how = (Out)(1 + c.choose(4, "failure")); w.s.leader = HostAddr("127.0.0.1", 45500); w.s.err = c.flip() ? Code::E_STORE_FAILURE : Code::E_SPACE_NOT_FOUND; bool hit = false;
    w.s.script = [&](const string&, int i) { if (i == at) { hit = true; return how; } return Out::OK; }; w.now = b; st.clear(); st.what = "the failing load";
    string fn; bool ok = w.cl->loadData(); if (hit) fn = w.s.calls[at].fn; w.s.script = nullptr; string what = hit ? "load with question " + I(at) + " (" + fn + ") failing" : "load";
    if (!hit) { MC_CHECK(c, ok, "load", "the load fails though every question is answered"); throw mc::Abandon(); }
    MC_CHECK(c, !ok, "failed-load", what << ": reported as successful"); Obs now = observe(*w.cl), nb = expected(b);
    if (before) {
        for (auto& x : now) if (x.first[0] != '~') MC_CHECK(c, x.second == old[x.first], "kept", what << ": " << x.first << " changed from " << old[x.first] << " to " << x.second);
        for (string g : {"~user", "~ftc", "~ft"}) { bool o = true, n = true; string d; for (auto& x : now) if (x.first.compare(0, g.size(), g) == 0 && (g != "~ft" || x.first != "~ftc")) { if (x.second != old[x.first]) { o = false; d = x.first; } if (x.second != nb[x.first]) n = false; } MC_CHECK(c, o || n, "mixed", what << ": " << d << " is neither the old nor the new"); }
    } else for (auto& x : now) if (x.first != "leaders") MC_CHECK(c, x.second == old[x.first], "kept", what << " before any other: " << x.first << " is now " << x.second);
    MC_CHECK(c, st.events.empty() && st.remote.empty(), "told-of-failed-load", what << ": the listener is told " << (st.events.empty() ? "of remote listeners" : st.events[0]));
    load(c, w, &st, b, "the load after the failed one"); heard(c, st, a, b, "the load after the failed one"); same(c, observe(*w.cl), nb, "the load after the failed one", "cache"); c.outcome(fn + I((int)how));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C42", {
        {"places", places, false, "all pairs of 43 placements of parts (1 to 3 parts on 1 to 3 hosts) and listeners of a space (thorough: also recreated under another id with a second space, and all triples); every notification and every answer"},
        {"names", names, false, "all pairs of 61 (thorough: 541) and 541 clusters of up to two spaces with tags, edges, their versions and indexes appearing, changing, swapping names and going; every answer"},
        {"people", people, false, "all pairs of 20 (thorough: 240) and 240 clusters of spaces (also with exchanged ids), leaders, hosts, users, roles and full-text services; every answer, also before the first load"},
        {"failing", failing, false, "each question of a load failing in 4 ways, on the first load and a later one; then a load that succeeds"},
    }, {"the server lists the versions of a tag or edge type one after another from new to old, numbered from 0 without gaps, and every part has a host",
        "the server's answers within one load describe one cluster", "users, full-text services and full-text indexes are loads of their own: each is the old or the new as a whole after a failed load"});
}
