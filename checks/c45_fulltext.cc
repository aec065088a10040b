// C45: the full-text adapters: the commands they run are taken apart as a shell would, the requests as JSON, and the replies of the search engine are enumerated.
#include "common/base/Base.h"
#include "mc.h"
#include "shellwords.h"
#include "common/plugin/fulltext/elasticsearch/ESGraphAdapter.h"
#include "common/plugin/fulltext/elasticsearch/ESStorageAdapter.h"
#include "common/process/ProcessUtils.h"
#include <nlohmann/json.hpp>
#include <map>
using mc::Ctx; using std::string; using std::vector; using nlohmann::json;
using namespace nebula::plugin;   // NOLINT
using nebula::Status; using nebula::StatusOr;
// ---- in place of running a command
static vector<string> g_cmds; static string g_reply; static bool g_fail;
namespace nebula { StatusOr<string> ProcessUtils::runCommand(const char* cmd) { g_cmds.push_back(cmd); if (g_fail) return Status::Error("cannot run"); return g_reply; } }
struct Req { string method, url, body, user, type; bool hasBody = false, hasUser = false; };
static Req request(Ctx& c) {
    MC_CHECK(c, g_cmds.size() == 1, "commands", g_cmds.size() << " commands were run"); vector<string> w; Req r;
    try { w = shellWords(g_cmds[0]); } catch (const std::exception& e) { c.fail("shell", string(e.what()) + " in the command " + g_cmds[0]); }
    MC_CHECK(c, !w.empty() && w[0].size() >= 4 && w[0].substr(w[0].size() - 4) == "curl", "program", "the program run is not curl but " << (w.empty() ? "" : w[0]));
    for (size_t i = 1; i < w.size(); ++i) {
        auto arg = [&](const char* o, string* v) { if (w[i].compare(0, strlen(o), o)) return false; if (w[i].size() > strlen(o)) *v = w[i].substr(strlen(o)); else if (i + 1 < w.size()) *v = w[++i]; else c.fail("arguments", string("nothing follows ") + o); return true; };
        string v;
        if (arg("-H", &v)) { string l; for (char ch : v) l += tolower(ch); if (l.compare(0, 13, "content-type:") == 0) r.type = v.substr(13); } else if (arg("-X", &r.method)) {} else if (arg("-u", &r.user)) r.hasUser = true; else if (arg("--data-binary", &r.body) || arg("-d", &r.body)) { MC_CHECK(c, !r.hasBody, "arguments", "two bodies"); r.hasBody = true; MC_CHECK(c, r.body.empty() || r.body[0] != '@', "body-file", "the body would be read from a file"); }
        else if (w[i] == "-s" || w[i] == "-S" || w[i] == "-sS") {} else if (w[i][0] == '-') c.fail("arguments", "curl has no use for " + w[i]); else { MC_CHECK(c, r.url.empty(), "arguments", "two addresses: " << r.url << " and " << w[i]); r.url = w[i]; }
    }
    MC_CHECK(c, r.url.find_first_of(" \t\n\"'\\<>{}^`|") == string::npos, "url", "the address " << r.url << " holds characters no address may hold");
    return r;
}
static json parsed(Ctx& c, const string& s) { try { return json::parse(s); } catch (const std::exception& e) { c.fail("json", string("the request is no JSON: ") + e.what()); } return json(); }
static const nebula::HostAddr HOST("10.1.2.3", 9200);
static string base() { return "http://10.1.2.3:9200/"; }
static const vector<string> TOK = {"a", "'", "\"", "\\", "\n", string(1, '\0'), "\x01", "\xc3\xa9", "/", "$", "`", "!", "\x7f", " ", "\xf0\x9f\x98\x80", "@", "%", "*"};
static string show(const string& s) { string o; for (unsigned char ch : s.substr(0, 40)) { char b[8]; if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += ch; } return o + (s.size() > 40 ? "... (" + std::to_string(s.size()) + " bytes)" : ""); }
static bool utf8Boundary(const string& s, size_t n) { return n >= s.size() || ((unsigned char)s[n] & 0xC0) != 0x80; }
static string clip(const string& v) { size_t n = std::min<size_t>(v.size(), 256); if (n == v.size()) return v; while (!utf8Boundary(v, n)) --n; return v.substr(0, n); }
static string md5(const string& s) { return proxygen::md5Encode(folly::ByteRange(reinterpret_cast<const unsigned char*>(s.data()), s.size())); }
static void run(std::function<void()> f, const string& reply) { g_cmds.clear(); g_reply = reply; g_fail = false; f(); }
static string putId(Ctx& c, const DocItem& d, const HttpClient& h) {
    StatusOr<bool> ok = false; run([&] { ok = ESStorageAdapter::kAdapter->put(h, d); }, R"({"result":"created"})"); MC_CHECK(c, ok.ok() && ok.value(), "put", "a created document is reported as a failure");
    auto r = request(c); string pre = base() + d.index + "/_doc/"; MC_CHECK(c, r.method == "PUT" && r.url.compare(0, pre.size(), pre) == 0, "put-url", "a document is put by " << r.method << " to " << r.url);
    string id = r.url.substr(pre.size()); MC_CHECK(c, !id.empty() && id.size() <= 512, "id-size", "the id of a document has " << id.size() << " bytes"); MC_CHECK(c, id.find_first_of("/?#%&") == string::npos, "id-chars", "the id " << id << " would not come through in an address");
    MC_CHECK(c, r.type.find("application/json") != string::npos, "type", "a document is sent as " << r.type);
    auto j = parsed(c, r.body); MC_CHECK(c, j.is_object() && j.value("column_id", "") == md5(d.column), "put-column", "the column of a document is " << r.body.substr(0, 80));
    MC_CHECK(c, j.contains("value") && j["value"].is_string() && j["value"] == clip(d.val), "put-value", "the value " << show(d.val) << " is sent as " << (j.contains("value") ? show(j["value"].is_string() ? j["value"].get<string>() : j["value"].dump()) : "nothing"));
    return id;
}
static void oneValue(Ctx& c, const string& v, const HttpClient& h) {
    DocItem d("index_1", "col", 7, v); c.step(); string id = putId(c, d, h);
    StatusOr<bool> ok = false; vector<DocItem> two; two.emplace_back(d); two.emplace_back(DocItem("index_2", "o'col", 8, v + "x"));
    run([&] { ok = ESStorageAdapter::kAdapter->bulk(h, two); }, R"({"errors":false})"); MC_CHECK(c, ok.ok() && ok.value(), "bulk", "documents put together are reported as a failure");
    auto r = request(c); MC_CHECK(c, r.method == "POST" && r.url == base() + "_bulk", "bulk-url", "documents are put by " << r.method << " to " << r.url); MC_CHECK(c, r.type.find("application/x-ndjson") != string::npos, "type", "documents are sent as " << r.type);
    MC_CHECK(c, !r.body.empty() && r.body.back() == '\n', "bulk-end", "the last line of a list of documents does not end"); vector<json> lines; string l; for (char ch : r.body) if (ch == '\n') { if (!l.empty()) lines.push_back(parsed(c, l)); l.clear(); } else l += ch;
    MC_CHECK(c, lines.size() == 4, "bulk-lines", "2 documents make " << lines.size() << " lines");
    for (int i = 0; i < 2; ++i) { auto& a = lines[2 * i]; auto& b = lines[2 * i + 1]; MC_CHECK(c, a.contains("index") && a["index"].value("_index", "") == two[i].index, "bulk-index", "document " << i << " goes to " << a.dump()); if (i == 0) MC_CHECK(c, a["index"].value("_id", "") == id, "bulk-id", "the same document has the ids " << id << " and " << a.dump());
        MC_CHECK(c, b.value("column_id", "") == md5(two[i].column) && b.contains("value") && b["value"] == clip(two[i].val), "bulk-value", "document " << i << " with value " << show(two[i].val) << " is sent as " << show(b.dump(-1, ' ', true))); }
    const char* OP[] = {"prefix", "wildcard", "regexp", "match"};
    for (int op = 0; op < 4; ++op) for (int f = 0; f < (op == 3 ? 2 : 1); ++f) {
        vector<string> rows; LimitItem lim(op * 10 + 1, 100 + op); auto& g = *ESGraphAdapter::kAdapter; folly::dynamic fz = f ? folly::dynamic(2) : folly::dynamic("AUTO");
        run([&] { ok = op == 0 ? g.prefix(h, d, lim, rows) : op == 1 ? g.wildcard(h, d, lim, rows) : op == 2 ? g.regexp(h, d, lim, rows) : g.fuzzy(h, d, lim, fz, f ? "or" : "and", rows); }, R"({"hits":{"hits":[]}})");
        MC_CHECK(c, ok.ok() && ok.value() && rows.empty(), "search", "a search that finds nothing is reported as a failure, or gives rows");
        auto q = request(c); MC_CHECK(c, q.method == "GET" && q.url == base() + "index_1/_search?timeout=" + std::to_string(lim.timeout_) + "ms", "search-url", "a " << OP[op] << " search goes by " << q.method << " to " << q.url); MC_CHECK(c, q.type.find("application/json") != string::npos, "type", "a search is sent as " << q.type);
        auto j = parsed(c, q.body); json value = op < 3 ? json{{"value", v}} : json{{"value", {{"query", v}, {"fuzziness", f ? json(2) : json("AUTO")}, {"operator", f ? "or" : "and"}}}};
        json want = {{"query", {{"bool", {{"must", json::array({json{{"term", {{"column_id", md5("col")}}}}, json{{OP[op], value}}})}}}}}, {"_source", "value"}, {"size", lim.maxRows_}, {"from", 0}};
        MC_CHECK(c, j == want, "search-body", "a " << OP[op] << " search for " << show(v) << " is sent as " << j.dump(-1, ' ', true));
    }
}
static void values(Ctx& c, int len) { HttpClient h(HOST); int n = c.choose(len + 1); string v; for (int i = 0; i < n; ++i) v += c.pick(TOK); oneValue(c, v, h); c.outcome(std::to_string(n)); }
static void lengths(Ctx& c) { HttpClient h(HOST); int n = 240 + c.choose(40), k = c.choose(5); string v; for (int i = 0; i < n; ++i) v += (char)('a' + i % 26); int at = c.choose(30); if (k) v.insert(std::min<size_t>(230 + at, v.size()), k == 1 ? "\xc3\xa9" : k == 2 ? "\xe4\xb8\xad" : k == 3 ? "\xf0\x9f\x98\x80" : "'"); oneValue(c, v, h); c.outcome(std::to_string(k)); }
static void ids(Ctx& c) {
    HttpClient h(HOST); std::map<string, string> seen; int fam = c.choose(3); vector<string> vals = {""}; vector<int> parts = {0, 1, 10, 12, 123456789, 1234567890, INT32_MAX}; vector<string> cols = {"a", "b", "ab", "A", "", "\xc3\xa9", "a'b", string("a\0", 2), string("a\0b", 3)};
    if (fam == 0) { vals.clear(); for (int a = 0; a < 256; ++a) vals.push_back(string(1, (char)a)); parts = {1}; cols = {"a"}; for (auto& x : TOK) for (auto& y : TOK) for (auto& z : TOK) vals.push_back(x + y + z); std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end()); }
    else if (fam == 1) vals = {"", "a", "aa", "0", "00", "1", "AA==", "YQ=="}; else { vals.clear(); parts = {1}; cols = {"a"}; for (int n = 200; n <= 256; ++n) { vals.push_back(string(n, 'a')); if (n < 256) vals.push_back(string(n, 'a') + "b"); } std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end()); }
    for (auto& v : vals) for (int p : parts) for (auto& col : cols) { c.step(); string id = DocIDTraits::docId(DocItem("i", col, p, v)); string k = std::to_string(p) + "/" + col + "/" + v; MC_CHECK(c, seen.emplace(id, k).second, "id-collision", "two documents, " << show(seen[id]) << " and " << show(k) << ", have the id " << id); if (fam) MC_CHECK(c, putId(c, DocItem("i", col, p, v), h) == id, "id-put", "the id of a document put is not its id"); }
    std::map<string, size_t> width; for (auto& x : seen) { size_t p = x.second.find('/'); auto w = width.emplace(x.second.substr(p), x.first.size()); MC_CHECK(c, w.first->second == x.first.size(), "id-width", "the ids of " << show(x.second) << " in other parts have " << w.first->second << " bytes, this one " << x.first.size() << ": where the part ends cannot be told"); }
    c.outcome(std::to_string(seen.size()));
}
static void users(Ctx& c) {
    static const vector<string> part = {"", "a", "'", "\"", "$x", " ", "`ls`", ";", "\\", "p&w"}; string u = c.pick(part) + c.pick(part), p = c.pick(part) + c.pick(part); if (u.empty() && !p.empty()) throw mc::Abandon();
    HttpClient h(HOST, u, p); int op = c.choose(5); StatusOr<bool> ok = false; vector<string> rows; auto& g = *ESGraphAdapter::kAdapter; auto& s = *ESStorageAdapter::kAdapter; DocItem d("i", "c", 1, "v"); vector<DocItem> ds; ds.emplace_back(d);
    run([&] { switch (op) { case 0: ok = s.put(h, d); break; case 1: ok = s.bulk(h, ds); break; case 2: ok = g.prefix(h, d, LimitItem(1, 1), rows); break; case 3: ok = g.createIndex(h, "i"); break; case 4: ok = g.indexExists(h, "i"); break; } }, "{}");
    auto r = request(c); c.step(); MC_CHECK(c, r.hasUser == !u.empty() && r.user == (u.empty() ? "" : p.empty() ? u : u + ":" + p), "user", "user \"" << u << "\" with password \"" << p << "\" is sent as \"" << r.user << "\""); c.outcome(std::to_string(op));
}
static void indexes(Ctx& c) {
    HttpClient h(HOST); int op = c.choose(3), st = c.choose(4); string n = c.pick(vector<string>{"index_1", "x", "nebula-ft-2021.01"}); StatusOr<bool> ok = false; auto& g = *ESGraphAdapter::kAdapter; static const char* M[] = {"PUT", "DELETE", "GET"};
    auto call = [&] { ok = op == 0 ? g.createIndex(h, n) : op == 1 ? g.dropIndex(h, n) : g.indexExists(h, n); }; c.step();
    string good = op < 2 ? R"({"acknowledged":true,"shards_acknowledged":true,"index":"index_1"})" : R"([{"health":"green","status":"open","index":"index_1","uuid":"x","pri":"1"}])";
    if (st == 0) { run(call, good); auto r = request(c); string url = base() + (op == 2 ? "_cat/indices/" + n + "?format=json" : n); MC_CHECK(c, r.method == M[op] && r.url == url && !r.hasBody, "index-url", "an index is handled by " << r.method << " to " << r.url); MC_CHECK(c, ok.ok() && ok.value(), "index-good", "a good reply about an index is reported as a failure"); }
    else if (st == 1) { g_cmds.clear(); g_fail = true; call(); MC_CHECK(c, !ok.ok(), "index-fail", "a command that could not run is reported as success"); }
    else if (st == 2) { for (size_t k = 0; k < good.size(); ++k) { run(call, good.substr(0, k)); c.step(); MC_CHECK(c, !ok.ok() || !ok.value(), "index-cut", "the reply " << good.substr(0, k) << " is taken for success"); } }
    else { static const vector<string> bad = {"{}", "[]", "null", "1", "\"x\"", "true", R"({"error":{"type":"index_not_found_exception"},"status":404})", R"({"acknowledged":false})", R"({"acknowledged":"true"})", R"({"acknowledged":1})", R"({"acknowledged":null})", "[{}]", "[1]", "[null]", R"([{"acknowledged":true}])", "<html>", R"({"index":"index_1"})"};
        for (auto& b : bad) { run(call, b); c.step(); MC_CHECK(c, !ok.ok() || !ok.value(), "index-bad", "the reply " << b << " about " << (op == 0 ? "creating" : op == 1 ? "dropping" : "finding") << " an index is taken for success"); } }
    c.outcome(std::to_string(op));
}
static void writes(Ctx& c) {
    HttpClient h(HOST); bool many = c.flip(); int st = c.choose(3); StatusOr<bool> ok = false; DocItem d("i", "c", 1, "v"); vector<DocItem> ds; ds.emplace_back(d); auto call = [&] { ok = many ? ESStorageAdapter::kAdapter->bulk(h, ds) : ESStorageAdapter::kAdapter->put(h, d); }; c.step();
    vector<string> good = many ? vector<string>{R"({"took":18,"errors":false,"items":[{"index":{"result":"updated","status":200}}]})"} : vector<string>{R"({"result":"created","_version":1,"_shards":{"failed":0}})", R"({"_id":"x","result":"updated"})"};
    if (st == 0) { for (auto& gd : good) { run(call, gd); MC_CHECK(c, ok.ok() && ok.value(), "write-good", "the reply " << gd << " is reported as a failure"); for (size_t k = 0; k < gd.size(); ++k) { c.step(); run(call, gd.substr(0, k)); MC_CHECK(c, !ok.ok() || !ok.value(), "write-cut", "the reply " << gd.substr(0, k) << " is taken for success"); } } }
    else if (st == 1) { g_cmds.clear(); g_fail = true; call(); MC_CHECK(c, !ok.ok(), "write-fail", "a command that could not run is reported as success"); g_cmds.clear(); g_fail = false; vector<DocItem> none; ok = ESStorageAdapter::kAdapter->bulk(h, none); MC_CHECK(c, ok.ok() && ok.value() && g_cmds.empty(), "write-none", "putting no documents runs a command or fails"); }
    else { static const vector<string> bad = {"{}", "[]", "null", "1", "\"created\"", R"({"error":{"type":"x","reason":"created"},"status":400})", R"({"result":"noop"})", R"({"result":"deleted"})", R"({"result":true})", R"({"result":null})", R"({"result":["created"]})", R"({"errors":true,"items":[]})", R"({"errors":"false"})", R"({"errors":0})", R"({"errors":null})", R"([{"errors":false}])", R"([{"result":"created"}])", "<html>"};
        for (auto& b : bad) { c.step(); run(call, b); MC_CHECK(c, !ok.ok() || !ok.value(), "write-bad", "the reply " << b << " to " << (many ? "several documents" : "a document") << " is taken for success"); } if (many) { run(call, R"({"result":"created"})"); MC_CHECK(c, !ok.ok() || !ok.value(), "write-bad", "a reply without word of errors is taken for success"); } else { run(call, R"({"errors":false})"); MC_CHECK(c, !ok.ok() || !ok.value(), "write-bad", "a reply without a result is taken for success"); } }
    c.outcome(many ? "many" : "one");
}
static void replies(Ctx& c) {
    static const vector<string> hit = {R"({"_index":"i","_id":"1","_score":3.38,"_source":{"value":"aaa"}})", R"({"_source":{"value":"it's \"q\" \\ \u00e9\u0001"}})", R"({"_source":{"value":""}})", R"({"_id":"2"})", R"({"_source":{"other":"x"}})", R"({"_source":{"value":7}})", R"({"_source":null})", R"({"_source":"x"})", "null", "7"};
    static const vector<const char*> row = {"aaa", "it's \"q\" \\ \xc3\xa9\x01", "", nullptr, nullptr};
    HttpClient h(HOST); int op = c.choose(4), n = c.choose(c.thorough() ? 5 : 4); string hits; bool bad = false; vector<string> want; for (int i = 0; i < n; ++i) { int k = c.choose(hit.size()); hits += (i ? "," : "") + hit[k]; if (k >= 5) bad = true; else if (row[k]) want.push_back(row[k]); }
    DocItem d("i", "c", 1, "v"); StatusOr<bool> ok = false; auto& g = *ESGraphAdapter::kAdapter; vector<string> rows; auto call = [&] { rows.clear(); LimitItem lim(1, 1); ok = op == 0 ? g.prefix(h, d, lim, rows) : op == 1 ? g.wildcard(h, d, lim, rows) : op == 2 ? g.regexp(h, d, lim, rows) : g.fuzzy(h, d, lim, "AUTO", "and", rows); };
    string reply = R"({"took":2,"timed_out":false,"_shards":{"total":1},"hits":{"total":{"value":1,"relation":"eq"},"max_score":null,"hits":[)" + hits + "]}}"; c.step(); run(call, reply);
    if (bad) MC_CHECK(c, !ok.ok() || !ok.value(), "rows-bad", "the reply " << reply << " is taken for success"); else { MC_CHECK(c, ok.ok() && ok.value(), "rows-good", "the reply " << reply << " is reported as a failure"); MC_CHECK(c, rows == want, "rows", "the reply " << reply << " gives " << rows.size() << " rows, or others than it holds"); }
    if (n <= 1) for (size_t k = 0; k < reply.size(); ++k) { c.step(); run(call, reply.substr(0, k)); MC_CHECK(c, !ok.ok() || !ok.value(), "rows-cut", "the reply " << reply.substr(0, k) << " is taken for success"); }
    if (n == 0) { g_cmds.clear(); g_fail = true; call(); MC_CHECK(c, !ok.ok(), "rows-fail", "a search that could not run is reported as success");
        for (auto b : {"{}", "[]", "null", "1", "\"hits\"", R"({"hits":null})", R"({"hits":[]})", R"({"hits":"hits"})", R"({"hits":{"hits":{"a":1}}})", R"({"hits":{"hits":"x"}})", R"({"hits":{"hits":null}})", R"({"error":{"type":"parsing_exception"},"status":400})"}) { c.step(); run(call, b); MC_CHECK(c, !ok.ok() || !ok.value(), "rows-bad", "the reply " << b << " is taken for success"); } }
    c.outcome(bad ? "failure" : std::to_string(want.size()));
}
int main(int argc, char** argv) {
    vector<mc::Scenario> sc;
    sc.push_back({"values", [](Ctx& c) { values(c, c.thorough() ? 4 : 3); }, false, "all values of up to 3 (4) of 18 characters, among them quotes, backslashes, control, zero and non-ASCII ones, in 2 kinds of documents and 4 of searches"});
    sc.push_back({"lengths", lengths, false, "values of 240 to 283 bytes with a character of 1-4 bytes at each place about the 256th"});
    sc.push_back({"ids", ids, false, "the ids of all values of 1 byte and of 3 of 18 characters, of grids of part, column and value, and of long values, all different"});
    sc.push_back({"users", users, false, "all users and passwords of 2 of 10 pieces with characters special to a shell, 5 requests"});
    sc.push_back({"indexes", indexes, false, "creating, dropping and finding an index: every cut of a good reply and 17 bad ones"});
    sc.push_back({"writes", writes, false, "putting one document and several: every cut of good replies and 18 bad ones"});
    sc.push_back({"replies", replies, false, "replies of up to 3 (4) of 10 hits, good and bad, to 4 searches, every cut of the short ones and 12 bad ones"});
    return mc::run(argc, argv, "C45", sc, {"running a command is replaced by recording it; it is taken apart by the rules of sh(1) and the options of curl", "values are UTF-8; of a value longer than 256 bytes the first 256, cut at a character, count, as the code says", "index names are those the search engine allows", "proxygen's digests are a stand-in"});
}
