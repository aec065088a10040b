// C17: LRU cache. Sequential histories against a reference; concurrent calls against linearizability.
#include "common/base/Base.h"
#include "mc.h"
#include "vsched.h"
#include "common/base/ConcurrentLRUCache.h"
#include <algorithm>
#include <thread>
#include <list>
using mc::Ctx; using nebula::ConcurrentLRUCache; using nebula::LRU; using nebula::StatusOr; using nebula::Status;
#define NT __attribute__((no_sanitize("thread")))

struct Model {   // one bucket
    size_t cap; std::list<std::pair<std::string, std::string>> l; uint64_t total = 0, hits = 0, evicts = 0;
    explicit Model(size_t c) : cap(c) {}
    std::list<std::pair<std::string, std::string>>::iterator find(const std::string& k) { return std::find_if(l.begin(), l.end(), [&](auto& p) { return p.first == k; }); }
    void insert(const std::string& k, const std::string& v) { auto i = find(k); if (i != l.end()) l.erase(i); else if (l.size() >= cap) { l.pop_back(); ++evicts; } l.emplace_front(k, v); }
    const std::string* get(const std::string& k) { ++total; auto i = find(k); if (i == l.end()) return nullptr; ++hits; l.splice(l.begin(), l, i); return &l.front().second; }
    void evict(const std::string& k) { auto i = find(k); if (i != l.end()) { l.erase(i); ++evicts; } }
    void clear() { l.clear(); total = hits = evicts = 0; }
    std::string key() const { std::string s; for (auto& p : l) s += p.first + "=" + p.second + ";"; return s; }
};
// the result of one call as text
enum { GET, INSERT, PUT, CONTAINS, EVICT, CLEAR, TOTAL, HITS, EVICTS };
static const char* OPS[] = {"get", "insert", "putIfAbsent", "contains", "evict", "clear", "total", "hits", "evicts"};
typedef ConcurrentLRUCache<std::string, std::string> Cache;
static std::string viaStatus(StatusOr<std::string> r) { if (r.ok()) return "value " + r.value(); return r.status().isInserted() ? "inserted" : "none"; }
static std::string call(Cache& c, int op, const std::string& k, const std::string& v, int hint) {
    switch (op) {
        case GET: return viaStatus(c.get(k, hint));
        case INSERT: c.insert(k, v, hint); return "";
        case PUT: return viaStatus(c.putIfAbsent(k, v, hint));
        case CONTAINS: return c.contains(k, hint) ? "yes" : "no";
        case EVICT: c.evict(k, hint); return "";
        case CLEAR: c.clear(); return "";
        case TOTAL: return std::to_string(c.total());
        case HITS: return std::to_string(c.hits());
        default: return std::to_string(c.evicts());
    }
}
static std::string spec(std::vector<Model>& ms, int op, const std::string& k, const std::string& v, int hint) {
    uint64_t n = 0;
    size_t b = (hint >= 0 ? (size_t)hint : std::hash<std::string>()(k)) & (ms.size() - 1); Model& m = ms[b];
    switch (op) {
        case GET: { auto* p = m.get(k); return p ? "value " + *p : "none"; }
        case INSERT: m.insert(k, v); return "";
        case PUT: { auto* p = m.get(k); if (p) return "value " + *p; m.insert(k, v); return "inserted"; }
        case CONTAINS: return m.find(k) != m.l.end() ? "yes" : "no";
        case EVICT: m.evict(k); return "";
        case CLEAR: for (auto& q : ms) q.clear(); return "";
        case TOTAL: for (auto& q : ms) n += q.total; return std::to_string(n);
        case HITS: for (auto& q : ms) n += q.hits; return std::to_string(n);
        default: for (auto& q : ms) n += q.evicts; return std::to_string(n);
    }
}
static std::vector<Model> models(size_t cap, int exp) { std::vector<Model> r; size_t n = 1u << exp, per = cap >> exp; for (size_t i = 0; i + 1 < n; ++i) r.emplace_back(per); r.emplace_back(cap - per * (n - 1)); return r; }

static void history(Ctx& c, size_t cap, int exp, int nkeys, int depth, bool hints) {
    static const std::string keys[] = {"alpha", "beta", "gamma", "delta-with-a-long-name-beyond-the-short-buffer"};
    Cache cache(cap, exp); auto ms = models(cap, exp);
    for (int i = 0; i < depth; ++i) {
        int k = c.choose(nkeys * 5 + 1), op = k == nkeys * 5 ? CLEAR : k / nkeys; int ki = k == nkeys * 5 ? 0 : k % nkeys; const std::string& key = keys[ki];
        std::string v = "v" + std::to_string(i) + (i % 2 ? "-a-longer-value-beyond-the-short-buffer" : ""); int hint = hints ? ki + (exp ? (1 << exp) * ki : 0) : -1;
        std::string got = call(cache, op, key, v, hint), want = spec(ms, op, key, v, hint);
        MC_LOG(c, OPS[op] << "(" << key << ") -> " << got); c.step();
        MC_CHECK(c, got == want, "result", OPS[op] << "(" << key << ") gives '" << got << "' instead of '" << want << "' (capacity " << cap << ", " << (1 << exp) << " buckets)");
        for (int j = 0; j < nkeys; ++j) { int h = hints ? j + (exp ? (1 << exp) * j : 0) : -1; std::string g = call(cache, CONTAINS, keys[j], "", h), w = spec(ms, CONTAINS, keys[j], "", h); MC_CHECK(c, g == w, "content", "after " << OPS[op] << "(" << key << ") contains(" << keys[j] << ") is " << g); }
        for (int o : {TOTAL, HITS, EVICTS}) { std::string g = call(cache, o, "", "", -1), w = spec(ms, o, "", "", -1); MC_CHECK(c, g == w, "counter", "after " << OPS[op] << "(" << key << ") " << OPS[o] << "() is " << g << " instead of " << w); }
        std::string st; for (auto& m : ms) st += m.key() + "|"; c.state(st);
    }
    c.outcome(std::to_string(ms[0].l.size()) + std::to_string(ms[0].evicts));
}

// One concurrent call with its result and the moments it began and ended.
struct Call { int op; int key; int val; std::string got; int begin = 0, end = 0; };
static NT int tick(int& clk) { return ++clk; }
static NT void note(Call& k, const std::string& r, int b, int e) { k.got = r; k.begin = b; k.end = e; }
static const std::string KEYS[] = {"a", "b", "c"};

static bool linearizable(std::vector<Call*>& rest, std::vector<Model> ms, const std::vector<std::pair<int, std::string>>& fin) {
    if (rest.empty()) {
        for (auto& f : fin) { auto copy = ms; if (f.first < 3) { if (spec(copy, CONTAINS, KEYS[f.first], "", -1) != f.second) return false; } else if (spec(copy, TOTAL + f.first - 3, "", "", -1) != f.second) return false; }
        return true;
    }
    for (size_t i = 0; i < rest.size(); ++i) {
        bool first = true; for (size_t j = 0; j < rest.size(); ++j) if (j != i && rest[j]->end < rest[i]->begin) first = false;
        if (!first) continue;
        auto copy = ms; Call* k = rest[i];
        if (spec(copy, k->op, KEYS[k->key], std::to_string(k->val), -1) != k->got) continue;
        std::vector<Call*> r2 = rest; r2.erase(r2.begin() + i);
        if (linearizable(r2, std::move(copy), fin)) return true;
    }
    return false;
}
static NT void judge(Ctx& c, std::vector<std::vector<Call>>& prog, const std::vector<std::string>& pre, size_t cap, std::vector<std::pair<int, std::string>>& fin) {
    auto ms = models(cap, 0); for (size_t i = 0; i < pre.size(); ++i) spec(ms, INSERT, pre[i], "p" + std::to_string(i), -1);
    std::vector<Call*> all; std::string shown;
    for (auto& t : prog) { for (auto& k : t) { all.push_back(&k); shown += std::string(OPS[k.op]) + "(" + KEYS[k.key] + ")='" + k.got + "' "; } shown += "| "; }
    for (auto& f : fin) shown += (f.first < 3 ? KEYS[f.first] : OPS[TOTAL + f.first - 3]) + ":" + f.second + " ";
    if (c.logging()) c.log(shown);
    c.outcome(shown);
    if (!linearizable(all, ms, fin)) c.fail("linearizable", "no order of the calls explains " + shown);
}
static NT std::vector<Call> pickProg(Ctx& c, const std::vector<std::vector<Call>>& v) { return v[c.choose((int)v.size())]; }

static void concurrent(Ctx& c, const std::vector<std::vector<std::vector<Call>>>& progs, size_t cap, std::vector<std::string> pre, int preempt) {
    std::vector<std::vector<Call>> prog; for (auto& p : progs) prog.push_back(pickProg(c, p));
    mc::sched::Opts o; o.preemptions = preempt;
    mc::sched::run(c, o, [&] {
        Cache cache(cap, 0); int clk = 0;
        for (size_t i = 0; i < pre.size(); ++i) cache.insert(pre[i], "p" + std::to_string(i));
        std::vector<std::thread> ts;
        for (auto& t : prog) ts.emplace_back([&cache, &t, &clk] { for (auto& k : t) { int b = tick(clk); std::string r = call(cache, k.op, KEYS[k.key], std::to_string(k.val), -1); note(k, r, b, tick(clk)); mc::ctx().step(); } });
        for (auto& t : ts) t.join();
        std::vector<std::pair<int, std::string>> fin; for (int i = 0; i < 3; ++i) fin.push_back({i, call(cache, CONTAINS, KEYS[i], "", -1)});
        for (int i = 0; i < 3; ++i) fin.push_back({3 + i, call(cache, TOTAL + i, "", "", -1)});
        judge(c, prog, pre, cap, fin);
    });
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"one-bucket", [](Ctx& c) { history(c, 2, 0, 3, c.thorough() ? 6 : 5, false); }, false, "all histories of 5 (6) of 16 operations, capacity 2"});
    sc.push_back({"capacity-3", [](Ctx& c) { history(c, 3, 0, 4, c.thorough() ? 6 : 5, c.flip()); }, false, "all histories of 5 (6) of 21 operations, capacity 3"});
    sc.push_back({"two-buckets", [](Ctx& c) { history(c, 3, 1, 3, c.thorough() ? 6 : 5, true); }, false, "all histories of 5 (6) of 16 operations, two buckets of unequal capacity, chosen by hint"});
    sc.push_back({"four-buckets", [](Ctx& c) { bool h = c.flip(); size_t cap = 5 + c.choose(4); history(c, cap, 2, 4, 3, h); }, false, "all histories of 3 operations over 4 buckets, by hash and by hint, 4 capacities"});
    sc.push_back({"class", [](Ctx& c) {   // the recency list itself
        size_t cap = 1 + c.choose(3); LRU<int, std::string> l(cap); Model m(cap);
        MC_CHECK(c, l.empty() && l.size() == 0 && l.capacity() == cap, "class", "a new list is not empty");
        for (int i = 0; i < (c.thorough() ? 6 : 5); ++i) { int k = c.choose(13); int key = k % 3; std::string ks = std::to_string(key), v = "v" + std::to_string(i); c.step();
            if (k == 12) { l.clear(); m.clear(); } else switch (k / 3) {
                case 0: { int kk = key; std::string vv = v; l.insert(std::move(kk), std::move(vv)); m.insert(ks, v); break; }
                case 1: { auto g = l.get(key); auto* w = m.get(ks); MC_CHECK(c, (bool)g == (w != nullptr) && (!w || *g == *w), "class", "get(" << key << ") differs"); break; }
                case 2: l.evict(key); m.evict(ks); break;
                case 3: MC_CHECK(c, l.contains(key) == (m.find(ks) != m.l.end()), "class", "contains(" << key << ") differs"); break; }
            MC_CHECK(c, l.size() == m.l.size() && l.empty() == m.l.empty() && l.total() == m.total && l.hits() == m.hits && l.evicts() == m.evicts, "class", "size or counters differ");
            c.state(m.key()); }
        c.outcome(std::to_string(l.size()));
    }, false, "all histories of 5 (6) operations, capacity 1 to 3"});
    typedef std::vector<std::vector<Call>> Ps;
    auto K = [](int op, int key, int val = 0) { Call k; k.op = op; k.key = key; k.val = val; return k; };
    sc.push_back({"two-threads", [K](Ctx& c) {
        Ps a{{K(INSERT, 0, 1), K(GET, 1)}, {K(PUT, 0, 1), K(GET, 0)}, {K(PUT, 1, 1), K(EVICT, 1)}, {K(GET, 0), K(PUT, 2, 1)}, {K(EVICT, 0), K(INSERT, 2, 1)}};
        Ps b{{K(INSERT, 0, 2), K(GET, 0)}, {K(PUT, 0, 2), K(INSERT, 1, 2)}, {K(GET, 1), K(EVICT, 0)}, {K(CLEAR, 0), K(PUT, 1, 2)}, {K(CONTAINS, 0), K(TOTAL, 0)}, {K(HITS, 0), K(EVICTS, 0)}, {K(INSERT, 2, 2), K(CONTAINS, 1)}};
        concurrent(c, {a, b}, 2, c.flip() ? std::vector<std::string>{"a", "b"} : std::vector<std::string>{}, c.thorough() ? 6 : 4);
    }, false, "35 pairs of two-call programs x 2 initial contents, all interleavings with 4 (6) preemptions"});
    sc.push_back({"three-threads", [K](Ctx& c) {
        Ps a{{K(PUT, 0, 1)}, {K(INSERT, 0, 1)}, {K(GET, 0)}}, b{{K(PUT, 0, 2)}, {K(INSERT, 2, 2)}, {K(EVICT, 0)}, {K(CLEAR, 0)}}, d{{K(GET, 0), K(CONTAINS, 1)}, {K(PUT, 0, 3), K(EVICTS, 0)}, {K(INSERT, 1, 3)}};
        concurrent(c, {a, b, d}, 2, {"b"}, c.thorough() ? 6 : 4);
    }, false, "36 programs of three threads, all interleavings with 4 (6) preemptions"});
    return mc::run(argc, argv, "C17", sc, {"Keys hash with std::hash. total(), hits() and evicts() of several buckets are sums of per-bucket readings; concurrent readings are checked for one bucket."});
}
