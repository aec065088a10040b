// C50: connections to other servers: every history of asking, breaking and renaming, for one and several event bases and threads.
#include "mc.h"
#include <boost/functional/hash.hpp>
#include "common/base/Base.h"
#include "common/datatypes/HostAddr.h"
#include "common/thrift/ThriftClientManager.h"
#include <folly/io/async/EventBaseManager.h>
#include <condition_variable>
#include <set>
#include <thread>
using mc::Ctx;
using nebula::HostAddr;
using std::string;
using std::vector;
DECLARE_int32(conn_timeout_ms);
namespace at = apache::thrift;

static std::set<int> g_live; static int g_made = 0; static string g_bad;
struct Client {   // what the generated clients are to the manager
    std::unique_ptr<at::HeaderClientChannel> ch; int id; at::RequestChannel* fake = nullptr; bool odd = false; folly::EventBase* base = nullptr;
    explicit Client(std::unique_ptr<at::HeaderClientChannel> c) : ch(std::move(c)), id(++g_made) { auto* s = sock(); if (s) base = s->base; g_live.insert(id); }
    ~Client() { if (folly::EventBase::mcOn() != base) g_bad = "a client is destroyed outside the thread of its event base"; g_live.erase(id); }
    at::RequestChannel* getChannel() { return odd ? fake : ch.get(); }
    folly::AsyncSocket* sock() { return dynamic_cast<folly::AsyncSocket*>(ch->t.get()); }
};
typedef nebula::thrift::ThriftClientManager<Client> Mgr;
typedef std::shared_ptr<Client> P;

// one further thread that does what it is told, one thing at a time
struct Helper {
    std::mutex m; std::condition_variable cv; std::function<void()> f; bool stop = false; std::thread t;
    Helper() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [this] { return f || stop; }); if (stop) return; f(); f = nullptr; cv.notify_all(); } }) {}
    void run(std::function<void()> g) { std::unique_lock<std::mutex> l(m); f = std::move(g); cv.notify_all(); cv.wait(l, [this] { return !f; }); }
    ~Helper() { { std::lock_guard<std::mutex> g(m); stop = true; cv.notify_all(); } t.join(); }
};

static std::map<string, string> g_dns;
static const vector<HostAddr>& hosts() { static vector<HostAddr> h{{"10.0.0.1", 9559}, {"10.0.0.1", 9560}, {"meta", 9559}, {"::1", 9559}, {"gone", 9559}}; return h; }
struct Slot { int id = 0; bool good = true; };   // a cached client
static void body(Ctx& c, int depth, int nHosts, int nBases, bool threads, bool variants) {
    g_live.clear(); g_made = 0; g_bad.clear(); g_dns = {{"meta", "10.0.0.1"}};
    folly::mcResolve = [](const string& h) { auto i = g_dns.find(h); if (i == g_dns.end()) throw std::runtime_error("Failed to resolve address for '" + h + "'"); return i->second; };
    FLAGS_conn_timeout_ms = 1000;
    folly::EventBase evs[2]; std::map<int, P> held; std::map<int, string> why;
    {
        Mgr mgr; std::unique_ptr<Helper> hp; if (threads) hp.reset(new Helper());
        std::map<std::tuple<int, int, int>, Slot> cache;   // thread, base, host
        std::set<int> cached;                               // ids the manager may keep alive
        for (int d = 0; d < depth; ++d) {
            int kinds = 3 + (variants ? 1 : 0);
            int k = c.choose(kinds, "what");
            if (k == 0) {   // ask
                int th = threads ? c.choose(2, "thread") : 0, b = c.choose(nBases, "base"), h = c.choose(nHosts, "host"); uint32_t to = 0; bool compat = false;
                if (variants) { int v = c.choose(3, "options"); to = v == 1 ? 250 : 0; compat = v == 2; }
                bool own = nBases == 1 && variants && c.flip();
                folly::EventBase* eb = own ? folly::EventBaseManager::get()->getEventBase() : &evs[b]; int bk = own ? 9 : b;
                P p; int made = g_made;
                auto go = [&] { p = own ? mgr.client(hosts()[h], nullptr, compat, to) : mgr.client(hosts()[h], eb, compat, to); };
                if (th) hp->run(go); else go();
                MC_CHECK(c, (p != nullptr), "none", "no client is returned");
                Slot& s = cache[{th, bk, h}]; bool fresh = g_made > made;
                MC_CHECK(c, (g_made - made <= 1), "two-made", "two connections are made for one request");
                if (s.id && s.good) {
                    MC_CHECK(c, (!fresh), "not-reused", "a new connection to " + hosts()[h].toString() + " is made although the one made before is good");
                    MC_CHECK(c, (p->id == s.id), "other-reused", "asked for " + hosts()[h].toString() + " a client other than the one made for it is returned");
                } else {
                    string want = folly::IPAddress::validate(hosts()[h].host) ? hosts()[h].host : g_dns.count(hosts()[h].host) ? g_dns[hosts()[h].host] : hosts()[h].host;
                    auto* k2 = p->sock(); MC_CHECK(c, (k2 != nullptr), "no-socket", "the client has no connection");
                    MC_CHECK(c, (p->ch->ok && !k2->hup && !p->odd), "bad", "a broken connection is returned");
                    MC_CHECK(c, (k2->host == want && k2->port == hosts()[h].port), "address", "the connection for " + hosts()[h].toString() + " goes to " + k2->host + ":" + std::to_string(k2->port));
                    MC_CHECK(c, (k2->base == eb), "base", "the connection belongs to another event base");
                    if (fresh) {
                        MC_CHECK(c, (k2->madeOnBase), "made-off", "the connection is made outside the thread of its event base");
                        MC_CHECK(c, (k2->connTimeout == 1000), "conn-timeout", "the connection timeout is " + std::to_string(k2->connTimeout));
                        MC_CHECK(c, (p->ch->timeout == to), "timeout", "a call timeout of " + std::to_string(p->ch->timeout) + " is set where " + std::to_string(to) + " was asked");
                        MC_CHECK(c, (compat ? p->ch->protocol == at::protocol::T_BINARY_PROTOCOL && p->ch->clientType == THRIFT_UNFRAMED_DEPRECATED : p->ch->protocol == 2 && p->ch->clientType == 0), "protocol", "the protocol of the connection is not the one asked for");
                    } else { bool mine = false; for (auto& e : cache) if (std::get<0>(e.first) == th && e.second.id == p->id && e.second.good) mine = true; MC_CHECK(c, (mine), "foreign", "a client of another thread is returned"); }
                    if (s.id) cached.erase(s.id);
                    s = Slot{p->id, true}; cached.insert(p->id);
                }
                held[p->id] = p; c.step(); c.outcome(fresh ? "made" : "reused");
            } else if (k == 1) {   // a connection breaks
                if (held.empty()) throw mc::Abandon();
                auto it = held.begin(); std::advance(it, c.choose((int)held.size(), "which")); P p = it->second;
                int how = c.choose(4, "how");
                if (how == 0) p->ch->ok = false; else if (how == 1) { if (!p->sock()) throw mc::Abandon(); p->sock()->hup = true; } else if (how == 2) p->odd = true; else p->ch->t.reset();
                for (auto& e : cache) if (e.second.id == p->id) e.second.good = false;
            } else if (k == 2) {   // the caller lets go of a client
                if (held.empty()) throw mc::Abandon();
                auto it = held.begin(); std::advance(it, c.choose((int)held.size(), "which")); int id = it->first; it->second.reset(); held.erase(it);
                bool keep = false; for (auto& e : cache) if (e.second.id == id) keep = true;
                MC_CHECK(c, (!keep || g_live.count(id)), "dropped", "the manager does not keep the client it made");
                MC_CHECK(c, (keep || !g_live.count(id)), "leak", "a broken client nobody uses is kept after it was replaced");
            } else { string& n = g_dns["meta"]; n = n == "10.0.0.1" ? "10.0.0.2" : "10.0.0.1"; }
            if (!g_bad.empty()) c.fail("destroyed-off", g_bad);
            string st = g_dns["meta"]; for (auto& e : cache) st += (e.second.good ? "+" : "-") + std::to_string(e.second.id) + ":" + std::to_string(std::get<0>(e.first) * 100 + std::get<1>(e.first) * 10 + std::get<2>(e.first)); for (auto& e : held) st += "," + std::to_string(e.first);
            c.state(std::hash<string>()(st));
        }
        for (auto& e : held) MC_CHECK(c, (g_live.count(e.first)), "use-after", "a client still in use was destroyed");
    }
    held.clear();
    MC_CHECK(c, (g_live.empty()), "left", std::to_string(g_live.size()) + " client(s) outlive the manager and its users");
    if (!g_bad.empty()) c.fail("destroyed-off", g_bad);
}
int main(int argc, char** argv) {
    
    return mc::run(argc, argv, "C50", {
        {"hosts", [](Ctx& c) { body(c, c.thorough() ? 6 : 5, c.thorough() ? 4 : 5, 1, false, false); }, false, "5 steps and 5 hosts (6 and 4) (addresses, names, a name that is not known)"},
        {"deep", [](Ctx& c) { body(c, c.thorough() ? 7 : 6, 2, 1, false, false); }, false, "6 (7) steps, 2 hosts"},
        {"bases", [](Ctx& c) { body(c, c.thorough() ? 6 : 5, 3, 2, false, false); }, false, "5 (6) steps, 3 hosts, 2 event bases"},
        {"threads", [](Ctx& c) { body(c, c.thorough() ? 5 : 4, 3, 1, true, false); }, false, "4 (5) steps, 3 hosts, 2 threads"},
        {"options", [](Ctx& c) { body(c, c.thorough() ? 5 : 4, 3, 1, false, true); }, false, "4 (5) steps, 3 hosts, with a call timeout, the old protocol or no event base, and names that change their address"},
    }, {"The channel, the socket and name resolution are stand-ins whose state the check chooses; work handed to an event base runs at once on the caller."});
}
