// C43: a metadata request is tried until it is answered or the limit is reached, each time at the leader then known; the heartbeat that
// keeps the client's copy current reports who asks, remembers the cluster it belongs to, and reloads exactly when the server has changed.
#include "fsbox.h"
#include "metabox.h"
#include <glog/logging.h>
#include "common/clients/meta/FileBasedClusterIdMan.h"
using namespace metabox; using mc::Ctx; using std::ostringstream;
DECLARE_int32(meta_client_retry_times); DECLARE_int32(meta_client_retry_interval_secs); DECLARE_string(cluster_id_path); DECLARE_int32(heartbeat_interval_secs);
extern uint64_t (*mc_rand64_hook)(uint64_t, uint64_t);
static string I(int64_t v) { return std::to_string(v); }
static const HostAddr A[] = {HostAddr("127.0.0.1", 45500), HostAddr("127.0.0.2", 45501), HostAddr("127.0.0.3", 45502)}; static const HostAddr FAR("127.0.0.9", 45509);
static Ctx* C0; static vector<int> picks; static int draws;
static uint64_t drawn(uint64_t lo, uint64_t hi) { ++draws; int v = (int)lo + (hi - lo > 1 ? C0->choose((int)(hi - lo), "random server") : 0); picks.push_back(v); return v; }
struct Box {   // one process
    Server s; std::shared_ptr<folly::IOThreadPoolExecutor> io; Cluster now; std::unique_ptr<Client> cl; vector<HostAddr> addrs;
    Box(Ctx& c, int n, int threads = 1) : io(std::make_shared<folly::IOThreadPoolExecutor>(threads)), addrs(A, A + n) {
        C0 = &c; srv = &s; s.cl = &now; pool = io.get(); waited.clear(); picks.clear(); draws = 0; install(); mc_rand64_hook = drawn;
    }
    void start(const m::MetaClientOptions& o) { cl.reset(new Client(io, addrs, o)); }
    ~Box() { mc_rand64_hook = nullptr; cl.reset(); drain(); pool = nullptr; srv = nullptr; }
};
static m::MetaClientOptions plain() { m::MetaClientOptions o; o.localHost_ = HostAddr("me", 7); o.skipConfig_ = true; return o; }
static const char* ON[] = {"answered", "connection lost", "refused", "leader named", "no leader"};
static bool among(const vector<HostAddr>& v, const HostAddr& h) { for (auto& x : v) if (x == h) return true; return false; }

// (a) One request after another from one client: outcome of every attempt, every address drawn.
static void attempts(Ctx& c) {
    int n = 1 + c.choose(c.thorough() ? 3 : 2, "servers"), limit = c.choose(c.thorough() ? 4 : 3, "retry limit"), interval = c.choose(2) * 3;
    FLAGS_meta_client_retry_times = limit; FLAGS_meta_client_retry_interval_secs = interval;
    Box b(c, n); b.start(plain());
    // the model: the address the next attempt goes to; after a failure it is drawn anew
    HostAddr leader; bool drawnAnew = true; int drawsSeen = 0; string hist; Out last = Out::OK; HostAddr named; int tries = 0; bool far = false;
    b.s.script = [&](const string& fn, int i) {
        auto to = b.s.calls[i].to; ++tries;
        MC_CHECK(c, tries <= limit + 1, "too-many", "more than 1 + " << limit << " attempts: " << hist);
        if (drawnAnew) { MC_CHECK(c, draws > drawsSeen && to == b.addrs[picks.back()], "drawn-target", "attempt " << tries << " went to " << S(to) << " instead of a server drawn anew; so far: " << hist); leader = to; drawnAnew = false; }
        else MC_CHECK(c, to == leader, "target", "attempt " << tries << " went to " << S(to) << " instead of the known leader " << S(leader) << "; so far: " << hist);
        MC_CHECK(c, (int)waited.size() == tries - 1, "delay", "attempt " << tries << " after " << waited.size() << " pauses");
        last = (Out)c.choose(5, "outcome"); hist += S(to) + " " + ON[(int)last] + "; "; drawsSeen = draws;
        if (last == Out::EXC || last == Out::LEADER_NONE) drawnAnew = true;
        if (last == Out::LEADER) { far = c.flip(); named = far ? FAR : b.addrs[n - 1]; b.s.leader = named; leader = named; }
        return last;
    };
    for (int round = 0; round < 2; ++round) {
        tries = 0; waited.clear(); last = Out::OK; hist += round ? " then: " : ""; int dones = 0; StatusOr<string> got = Status::Error("nothing");
        srv->calls.clear();
        nebula::meta::cpp2::MetaServiceAsyncClient::mc_get = [&](auto* cc, const mt::GetReq& q) { string k = q.get_key(); return answer<mt::GetResp>("get", cc, [&](mt::GetResp& r) { r.set_value("value of " + k); }); };
        string key = "k" + I(round);
        auto f = b.cl->get("seg", key); 
        std::move(f).thenTry([&](folly::Try<StatusOr<string>>&& t) { ++dones; if (t.hasException()) c.fail("exception", "the future failed: " + hist); got = std::move(t).value(); });
        drain(); c.step();
        MC_CHECK(c, dones == 1, "answered-once", "the caller heard " << dones << " times: " << hist);
        for (auto w : waited) MC_CHECK(c, (int)w == interval * 1000, "pause", "paused " << w << " ms instead of " << interval * 1000);
        bool again = last == Out::EXC || last == Out::LEADER || last == Out::LEADER_NONE;
        MC_CHECK(c, !again || tries == limit + 1, "gave-up", "gave up after " << tries << " of " << limit + 1 << " attempts: " << hist);
        if (last == Out::OK) MC_CHECK(c, got.ok() && got.value() == "value of " + key, "value", "the answer was not passed on: " << hist);
        else {
            MC_CHECK(c, !got.ok(), "not-ok", "success reported: " << hist);
            bool lc = got.status() == Status::LeaderChanged();
            MC_CHECK(c, lc == (last == Out::LEADER || last == Out::LEADER_NONE), "kind", "reported " << got.status().toString() << ": " << hist);
            if (last == Out::EXC) MC_CHECK(c, got.status().toString().find("connection lost") != string::npos, "reason", "reported " << got.status().toString() << ": " << hist);
        }
        c.outcome(string(ON[(int)last]) + I(tries));
        if (!c.thorough() && limit == 2 && round == 0 && tries > 2) break;
    }
}
// (b) Two requests at the same time on one or two IO threads, every order of the steps of the threads and timers.
static void together(Ctx& c) {
    int limit = c.choose(2, "retry limit"); FLAGS_meta_client_retry_times = limit; FLAGS_meta_client_retry_interval_secs = 1;
    Box b(c, 2, 2); m::MetaClientOptions o = plain();
    mc_rand64_hook = [](uint64_t, uint64_t) -> uint64_t { static uint64_t z; (void)z; return 0; };
    b.start(o);
    map<string, int> tries, final; map<string, Out> last; string hist; string cur; set<string> known; known.insert(S(A[0])); known.insert(S(A[1]));
    b.s.script = [&](const string&, int i) { auto to = b.s.calls[i].to; int& t = tries[cur]; ++t; MC_CHECK(c, t <= limit + 1, "too-many", "request " << cur << " sent " << t << " times: " << hist);
        MC_CHECK(c, known.count(S(to)), "target", "sent to " << S(to) << ", which nobody named: " << hist); Out r = (Out)c.choose(5, "outcome"); if (r == Out::LEADER) { b.s.leader = FAR; known.insert(S(FAR)); } last[cur] = r; hist += cur + " at " + S(to) + " " + ON[(int)r] + "; "; return r; };
    nebula::meta::cpp2::MetaServiceAsyncClient::mc_get = [&](auto* cc, const mt::GetReq& q) { cur = q.get_key(); string k = cur; return answer<mt::GetResp>("get", cc, [&](mt::GetResp& r) { r.set_value("value of " + k); }); };
    map<string, int> heard; map<string, StatusOr<string>> got;
    auto send = [&](string k) { b.cl->get("seg", k).thenTry([&, k](folly::Try<StatusOr<string>>&& t) { ++heard[k]; if (t.hasException()) c.fail("exception", "the future of " + k + " failed: " + hist); got.emplace(k, std::move(t).value()); }); };
    send("a"); bool sentB = false;
    auto& bases = pool->mcBases();
    while (true) {
        vector<std::pair<int, int>> can;   // base and -1 (its queue) or a timer
        for (int i = 0; i < (int)bases.size(); ++i) { if (!bases[i]->q.empty()) can.push_back({i, -1}); for (int t = 0; t < (int)bases[i]->timers.size(); ++t) can.push_back({i, t}); }
        int k = (int)can.size() + !sentB; if (!k) break;
        int p = k == 1 ? 0 : c.choose(k, "next step"); c.step();
        if (p == (int)can.size()) { sentB = true; send("b"); continue; }
        if (can[p].second < 0) bases[can[p].first]->mcRunOne(); else { uint32_t ms; bases[can[p].first]->mcRunTimer(can[p].second, &ms); MC_CHECK(c, ms == 1000, "pause", "paused " << ms << " ms"); }
    }
    for (string k : {"a", "b"}) {
        MC_CHECK(c, heard[k] == 1, "answered-once", k << " heard " << heard[k] << " times: " << hist);
        auto& g = got.at(k); bool ok = last[k] == Out::OK; MC_CHECK(c, g.ok() == ok, "outcome", k << " reported " << g.status().toString() << ": " << hist);
        if (ok) MC_CHECK(c, g.value() == "value of " + k, "crossed", k << " got " << g.value() << ": " << hist);
        else if (last[k] != Out::ERR) MC_CHECK(c, tries[k] == limit + 1, "gave-up", k << " gave up after " << tries[k] << " attempts: " << hist);
    }
    c.outcome(I(tries["a"]) + I(tries["b"]) + I((int)last["a"]) + I((int)last["b"]));
}
// (c) Every error code: success is success, a changed leader is told apart, and everything else is an error reported at once.
static void codes(Ctx& c) {
    static const vector<int> V = [] { vector<int> v; for (int i = -4000; i <= 0; ++i) v.push_back(i); return v; }();
    int code = V[c.choose((int)V.size(), "code")]; FLAGS_meta_client_retry_times = 2; FLAGS_meta_client_retry_interval_secs = 1;
    Box b(c, 1); b.start(plain()); b.s.err = (Code)code; b.s.leader = A[0];
    b.s.script = [&](const string&, int) { return Out::ERR; };
    auto r = b.cl->listUsers().get(); c.step();
    bool lc = code == (int)Code::E_LEADER_CHANGED;
    MC_CHECK(c, r.ok() == (code == 0), "code-ok", "code " << code << " reported as " << (r.ok() ? "success" : r.status().toString()));
    MC_CHECK(c, (int)b.s.calls.size() == (lc ? 3 : 1), "code-tries", "code " << code << ": " << b.s.calls.size() << " attempts");
    if (code) { MC_CHECK(c, (r.status() == Status::LeaderChanged()) == lc, "code-kind", "code " << code << " reported as " << r.status().toString()); MC_CHECK(c, lc || r.status().isError() || !r.status().ok(), "code-kind", "code " << code); c.outcome(r.status().toString()); }
}
// (d) The heartbeat: who asks, the cluster it belongs to over restarts, and reloading when the server has changed.
struct Hear : m::MetaChangedListener {
    std::unordered_map<nebula::GraphSpaceID, vector<mt::LeaderInfo>> leads;
    void onSpaceAdded(nebula::GraphSpaceID, bool) override {} void onSpaceRemoved(nebula::GraphSpaceID, bool) override {} void onSpaceOptionUpdated(nebula::GraphSpaceID, const std::unordered_map<string, string>&) override {}
    void onPartAdded(const m::PartHosts&) override {} void onPartRemoved(nebula::GraphSpaceID, nebula::PartitionID) override {} void onPartUpdated(const m::PartHosts&) override {}
    void fetchLeaderInfo(std::unordered_map<nebula::GraphSpaceID, vector<mt::LeaderInfo>>& l) override { l = leads; }
    void onListenerAdded(nebula::GraphSpaceID, nebula::PartitionID, const m::ListenerHosts&) override {} void onListenerRemoved(nebula::GraphSpaceID, nebula::PartitionID, mt::ListenerType) override {} void onCheckRemoteListeners(nebula::GraphSpaceID, nebula::PartitionID, const vector<HostAddr>&) override {}
};
static SpaceM spaceFor(int64_t t) { SpaceM s; s.id = 1; s.name = "s" + I(t); s.parts[1] = {HostAddr("h", 1)}; return s; }
static void beats(Ctx& c) {
    FLAGS_meta_client_retry_times = 0; FLAGS_meta_client_retry_interval_secs = 1; box::enter();
    mt::HostRole role = c.pick(vector<mt::HostRole>{mt::HostRole::STORAGE, mt::HostRole::GRAPH, mt::HostRole::META}); bool st = role == mt::HostRole::STORAGE;
    int stored = st ? c.choose(3, "stored cluster id") : 0; string path = box::root + (c.flip() ? "/cluster.id" : "/d/cluster.id"); FLAGS_cluster_id_path = path;
    if (path.find("/d/") != string::npos && stored) ::mkdir("d", 0755);
    auto write = [&](const string& t) { box::put(path.substr(box::root.size() + 1), t); };
    int64_t file = 0, id9 = 9; if (stored == 1) { write(string((char*)&id9, 8)); file = 9; } if (stored == 2) write("abc");
    int64_t mem = st && c.flip() ? 5 : 0; int64_t opt = mem;
    Box b(c, 2); mc_rand64_hook = nullptr; Hear h; b.now.updated = 10; b.now.spaces = {spaceFor(10)};
    auto boot = [&] { m::MetaClientOptions o = plain(); o.role_ = role; o.gitInfoSHA_ = "sha"; o.clusterId_ = opt; b.start(o); b.cl->registerListener(&h); mem = opt; };
    boot(); int64_t loaded = 0; int64_t view = -1; string hist; int n = c.thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        int op = i ? c.choose(4, "event") : 1 + c.choose(3, "event");
        if (!i && op == 1) op = 0;
        if (op == 0) { b.now.updated += 5; b.now.spaces = {spaceFor(b.now.updated)}; hist += "change; "; continue; }
        if (op == 1) { b.cl.reset(); drain(); boot(); loaded = 0; view = -1; hist += "restart; "; continue; }
        h.leads.clear(); if (op == 2 && st && c.flip()) { mt::LeaderInfo l; l.set_part_id(1 + i); l.set_term(40 + i); h.leads[3].push_back(l); }
        int fate = op == 2 ? c.choose(3, "heartbeat") : 0; b.s.calls.clear(); b.s.beats.clear(); int failAt = op == 3 ? c.choose(12, "failing answer of the reload") : -1;
        vector<string> fns; bool loadFailed = false;
        b.s.script = [&](const string& fn, int k) { fns.push_back(fn); if (fn == "heartBeat") return fate == 0 ? Out::OK : fate == 1 ? Out::EXC : Out::ERR; if (k - 1 == failAt) { loadFailed = true; return Out::ERR; } return Out::OK; };
        box::active = true; b.cl->heartBeatThreadFunc(); box::active = false; drain(); c.step();
        hist += fate == 0 ? (op == 3 ? "heartbeat and failing reload; " : "heartbeat; ") : "failing heartbeat; ";
        MC_CHECK(c, !fns.empty() && fns[0] == "heartBeat", "no-heartbeat", "no heartbeat sent: " << hist);
        if (mem == 0 && st) mem = file;   // looked up before it is sent
        bool reload = fns.size() > 1, want = fate == 0 && loaded < b.now.updated;
        MC_CHECK(c, reload == want, "reload", (reload ? "reloaded" : "did not reload") << " with state " << loaded << " of " << b.now.updated << ": " << hist);
        if (want && !loadFailed) { loaded = b.now.updated; view = b.now.updated; }
        if (fate == 0) {
            auto& q = b.s.beats.at(0); MC_CHECK(c, q.get_host() == HostAddr("me", 7) && q.get_role() == role && q.get_git_info_sha() == "sha", "who", "the heartbeat names another sender: " << hist);
            if (st) { MC_CHECK(c, q.get_cluster_id() == mem, "cluster-id", "the heartbeat names cluster " << q.get_cluster_id() << " instead of " << mem << ": " << hist);
                MC_CHECK(c, q.leader_partIds_ref().has_value() && *q.get_leader_partIds() == h.leads, "leads", "the heartbeat reports other partitions than the listener names: " << hist);
                if (mem == 0) { mem = file = b.now.id; } }
        }
        int64_t onDisk = m::FileBasedClusterIdMan::getClusterIdFromFile(path); MC_CHECK(c, onDisk == file, "stored-id", "cluster " << onDisk << " stored instead of " << file << ": " << hist);
        auto sp = b.cl->getSpaceNameByIdFromCache(1); string seen = sp.ok() ? sp.value() : "none", exp = view < 0 ? "none" : "s" + I(view);
        MC_CHECK(c, seen == exp, "view", "the copy shows " << seen << " instead of " << exp << ": " << hist);
        c.outcome(I(reload) + I(loadFailed) + I(fate));
    }
    b.cl.reset(); drain();
}
// (e) Waiting for the metadata service: as many attempts as allowed, ready with the first that succeeds.
static vector<unsigned> slept; static bool sleeping;
static void waiting(Ctx& c) {
    FLAGS_meta_client_retry_times = 0; int count = c.choose(3, "attempts") , secs = c.choose(2) * 2; Box b(c, 1); mc_rand64_hook = nullptr; b.now.updated = 10; b.now.spaces = {spaceFor(10)}; b.s.leader = A[0]; b.start(plain());
    int tries = 0; bool ok = false, hb = false; string hist;
    b.s.script = [&](const string& fn, int) { if (fn == "heartBeat") { ++tries; Out o = c.pick(vector<Out>{Out::OK, Out::EXC, Out::ERR, Out::LEADER}); hb = o == Out::OK || o == Out::LEADER; ok = false; hist += string(ON[(int)o]) + "; "; return o; }
        if (fn == "listHosts") { bool good = c.flip(); ok = hb && good; hist += good ? "loaded; " : "load refused; "; return good ? Out::OK : Out::ERR; } return Out::OK; };
    slept.clear(); sleeping = true; bool r = b.cl->waitForMetadReady(count, secs); sleeping = false; c.step();
    MC_CHECK(c, r == ok, "ready", "reported " << (r ? "ready" : "not ready") << " after: " << hist);
    MC_CHECK(c, ok ? tries <= count + 1 : tries == count + 1, "wait-tries", tries << " attempts with " << count << " retries allowed: " << hist);
    for (auto s : slept) MC_CHECK(c, s == (unsigned)secs, "wait-pause", "paused " << s << " s instead of " << secs);
    MC_CHECK(c, (int)slept.size() >= tries - 1, "wait-pause", slept.size() << " pauses for " << tries << " attempts");
    MC_CHECK(c, b.cl->getSpaceNameByIdFromCache(1).ok() == ok, "wait-view", "the copy answers " << !ok << ": " << hist);
    b.cl->stop(); c.outcome(I(tries) + I(ok));
}
extern "C" unsigned sleep(unsigned s) { if (sleeping) { slept.push_back(s); return 0; } timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]); FLAGS_minloglevel = 0;
    if (!box::create("C43")) return 3;
    int r = mc::run(argc, argv, "C43", {
        {"attempts", attempts, false, "two requests in turn; 1-2 (3) servers, retry limit 0-2 (0-3), every outcome of every attempt, every server drawn"},
        {"together", together, false, "two requests at the same time, retry limit 0-1, every outcome and every order of the steps of two IO threads and their timers"},
        {"codes", codes, false, "every error code from -4000 to 0"},
        {"heartbeats", beats, false, "3 roles, stored cluster ids, 3 (4) events: change, restart, heartbeat answered or not, reload failing at each answer"},
        {"waiting", waiting, false, "0-2 retries, every outcome of heartbeat and load"},
    }, {"in-process metadata server behind the generated client interface; event bases run one step at a time"});
    box::destroy(); return r;
}
