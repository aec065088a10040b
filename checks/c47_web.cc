// C47: web service endpoints: every request over small alphabets of methods, paths, queries and bodies, on the real handlers, router and service over a recording stand-in of the HTTP server.
#include "common/base/Base.h"
#include "mc.h"
#include "common/webservice/WebService.h"
#include "common/webservice/Router.h"
#include "common/webservice/Common.h"
#include "common/webservice/GetFlagsHandler.h"
#include "common/webservice/SetFlagsHandler.h"
#include "common/webservice/GetStatsHandler.h"
#include "common/webservice/StatusHandler.h"
#include "common/webservice/NotFoundHandler.h"
#include "common/stats/StatsManager.h"
#include <proxygen/httpserver/HTTPServer.h>
#include <nlohmann/json.hpp>
#include <cmath>
#include <map>
using mc::Ctx; using std::string; using std::vector; using json = nlohmann::json;
using proxygen::HTTPMessage; using proxygen::HTTPMethod; using proxygen::RequestHandler; using nebula::stats::StatsManager;
#define TWIN(T, n, v, d) DEFINE_##T(n, v, d); DEFINE_##T(twin_##n, v, "")
TWIN(int32, t_int32, -7, "an int32"); TWIN(uint32, t_uint32, 7, "a uint32, with = and : in it"); TWIN(int64, t_int64, -70000000000, "an int64"); TWIN(uint64, t_uint64, 70000000000, "a uint64"); TWIN(bool, t_bool, false, "a bool"); TWIN(double, t_double, 3.5, "a double"); TWIN(string, t_string, "te xt", "a string");
DECLARE_int32(ws_http_port); DECLARE_int32(ws_h2_port); DECLARE_int32(ws_threads);
namespace nebula { string gitInfoSha() { return "5ha-\"of\"-it"; }
namespace time { int64_t WallClock::slowNowInSec() { return 1000000; } int64_t WallClock::fastNowInSec() { return 1000000; } int64_t WallClock::slowNowInMilliSec() { return 1000000000; } int64_t WallClock::fastNowInMilliSec() { return 1000000000; } int64_t WallClock::slowNowInMicroSec() { return 1000000000000; } int64_t WallClock::fastNowInMicroSec() { return 1000000000000; } } }
static const vector<string> NAMES = {"t_int32", "t_uint32", "t_int64", "t_uint64", "t_bool", "t_double", "t_string"};
static bool isTest(const string& n) { for (auto& m : NAMES) if (m == n) return true; return false; }

// ---- asking
static proxygen::HTTPServer* server() {
    static nebula::WebService* ws = nullptr;
    if (!ws) { ws = new nebula::WebService(); auto s = ws->start(); if (!s.ok() || !ws->started() || !proxygen::HTTPServer::mcLast()) { fprintf(stderr, "web service does not start\n"); abort(); } }
    return proxygen::HTTPServer::mcLast();
}
struct Answer { int code = 0; string message, body; };
// end: 0 answered; 1..3: the connection fails before the request, before its end, after the answer
static Answer serve(Ctx& c, RequestHandler* h, const HTTPMessage& m, const vector<string>& bodies, int end, int live) {
    proxygen::ResponseHandler r; h->setResponseHandler(&r); MC_CHECK(c, (RequestHandler::mcLive() == live + 1), "handler", "a request has " + std::to_string(RequestHandler::mcLive() - live) + " handlers");
    auto fail = [&] { h->onError(proxygen::kErrorEOF); MC_CHECK(c, (RequestHandler::mcLive() == live), "left", "the handler of a request whose connection failed is left behind"); };
    if (end == 1) { fail(); return {}; }
    h->onRequest(std::make_unique<HTTPMessage>(m)); for (auto& b : bodies) h->onBody(folly::IOBuf::copyBuffer(b)); MC_CHECK(c, (r.sent.empty()), "early", "a request is answered before its end");
    if (end == 2) { fail(); return {}; }
    h->onEOM(); MC_CHECK(c, (r.sent.size() == 1 && r.sent[0].eom && r.sent[0].status), "answers", "a request has " + std::to_string(r.sent.size()) + " answers, or one without status or end");
    if (end == 3) { fail(); return {}; }
    h->requestComplete(); MC_CHECK(c, (RequestHandler::mcLive() == live), "left", "the handler of an answered request is left behind");
    return {r.sent[0].code, r.sent[0].message, r.sent[0].body};
}
static Answer ask(Ctx& c, const string& method, const string& url, const vector<string>& bodies = {}, int end = 0) {
    auto* s = server(); HTTPMessage m; m.setMethod(method); m.setURL(url); int live = RequestHandler::mcLive(); if (s->options.handlerFactories.size() != 1) abort();
    if (c.logging()) { string b; for (auto& x : bodies) b += " <" + x + ">"; c.log(method + " " + url + b); }
    c.step(); return serve(c, s->options.handlerFactories[0]->onRequest(nullptr, &m), m, bodies, end, live);
}
static void is(Ctx& c, const Answer& a, int code) {
    static const std::map<int, string> T = {{200, "OK"}, {400, "Bad Request"}, {404, "Not Found"}, {405, "Method Not Allowed"}};
    MC_CHECK(c, (a.code == code && a.message == T.at(code)), "status", "the answer is " + std::to_string(a.code) + " " + a.message + ", expected " + std::to_string(code));
    if (code != 200) MC_CHECK(c, (a.body.empty()), "body", "an answer " + std::to_string(code) + " has the body " + a.body); c.outcome(std::to_string(code));
}
static json parse(Ctx& c, string b) { for (size_t p; (p = b.find("-Infinity")) != string::npos;) b.replace(p, 9, "-1.5e308"); for (size_t p; (p = b.find("Infinity")) != string::npos;) b.replace(p, 8, "1.5e308"); for (size_t p; (p = b.find(": NaN")) != string::npos;) b.replace(p, 5, ": 1.25e308"); try { return json::parse(b); } catch (const std::exception& e) { c.fail("json", "the body is no JSON document: " + b); } return {}; }
static json number(double d) { return std::isnan(d) ? 1.25e308 : std::isinf(d) ? d < 0 ? -1.5e308 : 1.5e308 : d; }

// ---- flags
static gflags::CommandLineFlagInfo info(const string& n) { gflags::CommandLineFlagInfo i; if (!gflags::GetCommandLineFlagInfo(n.c_str(), &i)) abort(); return i; }
static bool known(const string& n) { gflags::CommandLineFlagInfo i; return gflags::GetCommandLineFlagInfo(n.c_str(), &i); }
// What a value of a flag is, from its text by gflags' rules.
static json valueOf(const string& type, const string& t) {
    if (type == "bool") return t == "true"; if (type == "string") return t; if (type == "double") return number(strtod(t.c_str(), nullptr));
    if (type == "uint64" || type == "uint32") return (uint64_t)strtoull(t.c_str(), nullptr, 10); return (int64_t)strtoll(t.c_str(), nullptr, 10);
}
static bool same(const json& a, const json& b) { if (a.is_number() && b.is_number() && (a.is_number_float() != b.is_number_float())) return false; return a == b; }
// Values as shown in plain text: numbers and truth values as they are, texts in quotes.
static bool shows(const string& type, const string& got, const string& t) {
    if (type == "string") return got == "\"" + t + "\""; if (type == "bool") return got == (t == "true" ? "1" : "0");
    if (type == "double") { char* e; double d = strtod(got.c_str(), &e), w = strtod(t.c_str(), nullptr); return !got.empty() && !*e && (d == w || (std::isnan(d) && std::isnan(w))); }
    return got == t;
}
static bool big(const string& type, const string& t) { return type == "uint64" && strtoull(t.c_str(), nullptr, 10) > INT64_MAX; }
// The listed finding: a uint64 flag above the greatest int64 is shown as a negative number.
static int64_t wrapped(const string& t) { return (int64_t)strtoull(t.c_str(), nullptr, 10); }
static void checkFlags(Ctx& c, const Answer& a, const vector<string>& names, bool verbose, bool asJson) {
    is(c, a, 200);
    if (asJson) {
        json d = parse(c, a.body); MC_CHECK(c, (d.is_object() && d.size() == 1 && d.contains("flags") && d["flags"].is_array()), "document", "the document is not {\"flags\": [...]}: " + a.body);
        auto& l = d["flags"]; MC_CHECK(c, (l.size() == names.size()), "count", std::to_string(names.size()) + " flags were asked for, " + std::to_string(l.size()) + " are listed");
        for (size_t k = 0; k < names.size(); ++k) {
            auto& f = l[k]; MC_CHECK(c, (f.is_object() && f.contains("name") && f["name"] == names[k]), "name", "flag " + std::to_string(k) + " of the list is " + f.dump() + ", asked for " + names[k]);
            if (!known(names[k])) { MC_CHECK(c, (f.size() == 2 && f.contains("value") && f["value"].is_null()), "unknown", "the unknown flag " + names[k] + " is shown as " + f.dump()); continue; }
            auto i = info(names[k]); MC_CHECK(c, (f.contains("value") && same(f["value"], valueOf(i.type, i.current_value)) || (big(i.type, i.current_value) && f["value"] == json(wrapped(i.current_value)) && c.known("uint64-large"))), "value", "flag " + names[k] + ", which is " + i.current_value + ", is shown as " + f.dump());
            MC_CHECK(c, (f.size() == (verbose ? 7u : 2u)), "fields", "a flag is shown with " + std::to_string(f.size()) + " fields: " + f.dump());
            if (verbose) MC_CHECK(c, (f.contains("default") && same(f["default"], valueOf(i.type, i.default_value)) && f.contains("type") && f["type"] == i.type && f.contains("description") && f["description"] == i.description && f.contains("file") && f["file"] == i.filename && f.contains("is_default") && f["is_default"] == json(i.is_default)), "verbose", "flag " + names[k] + " (default " + i.default_value + (i.is_default ? ", unchanged" : ", changed") + ") is shown as " + f.dump());
        }
        return;
    }
    string b = a.body; size_t at = 0;
    auto take = [&](const string& s) { MC_CHECK(c, (b.compare(at, s.size(), s) == 0), "text", "the body has \"" + b.substr(at, 60) + "\" where \"" + s + "\" is expected"); at += s.size(); };
    // the value ends where one of the given texts follows; a text flag may hold anything, so its length is taken from it
    auto value = [&](const string& n, const string& type, const string& t, const string& end) { size_t e = type == "string" ? at + t.size() + 2 : b.find_first_of(end, at); string got = e == string::npos ? b.substr(at) : b.substr(at, e - at); MC_CHECK(c, (shows(type, got, t) || (big(type, t) && got == std::to_string(wrapped(t)) && c.known("uint64-large"))), "text-value", "flag " + n + ", which is " + t + ", is shown as " + got); at += got.size(); };
    for (auto& n : names) {
        if (!known(n)) { size_t e = b.find('\n', at); string line = b.substr(at, e == string::npos ? e : e - at); MC_CHECK(c, (e != string::npos && line.find(n) != string::npos && line.find("nullptr") != string::npos), "unknown", "the unknown flag " + n + " is shown as " + line); at = e + 1; continue; }
        auto i = info(n);
        if (verbose) { take("--" + n + ": " + i.description + "\n  file: " + i.filename + ", type: " + i.type + ", default: "); value(n, i.type, i.default_value, ","); take(", current: "); value(n, i.type, i.current_value, "(\n"); take(i.is_default ? "(default)\n" : "\n"); }
        else { take(n + "="); value(n, i.type, i.current_value, "\n"); take("\n"); }
    }
    MC_CHECK(c, (at == b.size()), "text", "the body goes on with \"" + b.substr(at, 60) + "\"");
}
static const std::map<string, vector<string>> VALUES = {{"t_int32", {"-2147483648", "2147483647", "0"}}, {"t_uint32", {"4294967295", "2147483648", "0"}}, {"t_int64", {"-9223372036854775808", "9223372036854775807", "1"}}, {"t_uint64", {"9223372036854775807", "18446744073709551615", "0"}}, {"t_bool", {"true", "false", "true"}}, {"t_double", {"inf", "-0.1", "1e300"}}, {"t_string", {"", "a,b=\"c\"\n\\", "nullptr"}}};
static void query(Ctx& c) {
    gflags::FlagSaver saver; static const vector<string> N = {"t_int32", "t_uint32", "t_int64", "t_uint64", "t_bool", "t_double", "t_string", "none", " ", "T_INT32", ""}; static const vector<string> V = {"", "verbose=true", "verbose=false", "verbose=1", "verbose", "verbose=TRUE"}, F = {"", "format=json", "format=text", "format=JSON", "format"};
    int set = c.choose(4, "values"); if (set) for (auto& v : VALUES) if (gflags::SetCommandLineOption(v.first.c_str(), v.second[(size_t)set - 1].c_str()).empty()) abort();
    string v = c.pick(V), f = c.pick(F); int n = c.choose(c.thorough() ? 4 : 3, "names"); vector<string> names, given; for (int i = 0; i < n; ++i) { given.push_back(c.pick(N)); if (!given.back().empty()) names.push_back(given.back()); }
    if (names.empty() && n) throw mc::Abandon();
    if (!n) for (auto& m : NAMES) { names.push_back(m); given.push_back(m); }
    string q = "flags="; for (size_t i = 0; i < given.size(); ++i) q += (i ? "," : "") + given[i]; int order = c.choose(2, "order"); vector<string> parts; for (auto& p : order ? vector<string>{f, v, q} : vector<string>{q, v, f}) if (!p.empty()) parts.push_back(p);
    string url = "/flags?"; for (size_t i = 0; i < parts.size(); ++i) url += (i ? "&" : "") + parts[i];
    checkFlags(c, ask(c, "GET", url), names, v == "verbose=true", f == "format=json");
}
static void every(Ctx& c) {
    gflags::FlagSaver saver; static const vector<string> Q = {"", "flags=", "flags=,", "flags=,,", "flags", "other=t_int32"}; string q = c.pick(Q); bool v = c.flip(), j = c.flip();
    if (c.flip()) gflags::SetCommandLineOption("t_int32", "12");
    vector<gflags::CommandLineFlagInfo> l; gflags::GetAllFlags(&l); vector<string> names; for (auto& i : l) names.push_back(i.name); if (names.size() < 20) abort();
    string url = "/flags?" + q + (v ? "&verbose=true" : "") + (j ? "&format=json" : ""); Answer a = ask(c, "GET", url); if (!j && !v) { is(c, a, 200); for (auto& n : NAMES) MC_CHECK(c, (("\n" + a.body).find("\n" + n + "=") != string::npos), "all", "flag " + n + " is not among all flags"); return; }
    checkFlags(c, a, names, v, j);
}
struct Item { string doc; int kind; string text; };   // a value as written, whether it can be the value of a flag at all, and its text
static const vector<Item> ITEMS = {{"0", 1, "0"}, {"-1", 1, "-1"}, {"20", 1, "20"}, {"2147483648", 1, "2147483648"}, {"4294967296", 1, "4294967296"}, {"9223372036854775807", 1, "9223372036854775807"}, {"true", 1, "1"}, {"false", 1, "0"}, {"1.5", 1, "1.5"}, {"-2e3", 1, "-2000"}, {"\"\"", 1, ""}, {"\"7\"", 1, "7"}, {"\"abc\"", 1, "abc"}, {"\"true\"", 1, "true"}, {"\"a\\\"b\\n\\u00e9\"", 1, "a\"b\n\xc3\xa9"}, {"\"18446744073709551615\"", 1, "18446744073709551615"}, {"\"inf\"", 1, "inf"}, {"null", 0, ""}, {"[]", 0, ""}, {"[1]", 0, ""}, {"{}", 0, ""}, {"{\"t_int32\":1}", 0, ""}};
static vector<string> chunks(Ctx& c, const string& s, bool all) { if (!all || s.size() < 2) return {s}; int k = c.choose(4, "chunks"); if (k == 0) return {s}; if (k == 1) return {s.substr(0, 1), s.substr(1)}; if (k == 2) return {s.substr(0, s.size() / 2), "", s.substr(s.size() / 2)}; vector<string> r; for (char ch : s) r.push_back(string(1, ch)); return r; }
// What the flags become is asked of gflags itself, on flags of the same types that no request touches.
static std::set<string> expectSet(const vector<std::pair<string, Item>>& l) {
    std::set<string> failed;
    for (auto& x : l) { if (x.second.kind == 0) { failed.insert(x.first); continue; } string t = isTest(x.first) ? "twin_" + x.first : x.first; if (!known(t)) { failed.insert(x.first); continue; } if (gflags::SetCommandLineOption(t.c_str(), x.second.text.c_str()).empty()) failed.insert(x.first); }
    return failed;
}
static void twins(Ctx& c) { for (auto& n : NAMES) { auto a = info(n), b = info("twin_" + n); MC_CHECK(c, (a.current_value == b.current_value), "set", "flag " + n + " is " + a.current_value + ", expected " + b.current_value); } }
static void checkSet(Ctx& c, const Answer& a, const std::set<string>& failed) {
    is(c, a, 200); json d = parse(c, a.body); MC_CHECK(c, (d.is_object() && d.size() == 1), "document", "the answer is " + a.body);
    if (failed.empty()) MC_CHECK(c, (d.contains("errCode") && d["errCode"] == 0), "failed", "all flags could be set, but the answer is " + a.body);
    else { MC_CHECK(c, (d.contains("failedOptions") && d["failedOptions"].is_array()), "failed", "some flags could not be set, but the answer is " + a.body); std::multiset<string> got; for (auto& x : d["failedOptions"]) got.insert(x.is_string() ? x.get<string>() : "?"); MC_CHECK(c, (got == std::multiset<string>(failed.begin(), failed.end())), "failed", "the flags that could not be set are listed as " + a.body); }
    twins(c); c.outcome(failed.empty() ? "set" : "some failed");
}
static void put(Ctx& c) {
    gflags::FlagSaver saver; static const vector<string> N = {"t_int32", "t_uint32", "t_int64", "t_uint64", "t_bool", "t_double", "t_string", "none", ""}; int n = 1 + c.choose(c.thorough() ? 3 : 2, "items"); vector<std::pair<string, Item>> l; string doc = "{"; int last = -1;
    for (int i = 0; i < n; ++i) { int k = c.choose((int)N.size()); if (k <= last) throw mc::Abandon(); last = k; if (i == 2) { static const vector<Item> few = {ITEMS[2], ITEMS[12], ITEMS[17]}; l.push_back({N[(size_t)k], c.pick(few)}); } else l.push_back({N[(size_t)k], c.pick(ITEMS)}); doc += (i ? ", \"" : "\"") + l.back().first + "\":" + l.back().second.doc; } doc += "}";
    auto b = chunks(c, doc, n == 1); auto failed = expectSet(l); checkSet(c, ask(c, "PUT", "/flags", b), failed);
}
static void refused(Ctx& c) {
    gflags::FlagSaver saver; static const vector<string> D = {"", " ", "{}", "[]", "[1]", "[\"t_int32\"]", "[{\"t_int32\":1}]", "5", "1.5", "true", "null", "\"\"", "\"t_int32\"", "{", "}", "{\"t_int32\":}", "{\"t_int32\":1", "{\"t_int32\":1}}", "{\"t_int32\":1},", "t_int32=1", "{t_int32:1}", "{\"t_int32\":9223372036854775808}", string("\0", 1), "{\"t_int32\":1}\x01"};
    string d = c.pick(D); vector<string> b; if (!c.flip()) b = chunks(c, d, true); else if (!d.empty()) throw mc::Abandon();
    Answer a = ask(c, "PUT", "/flags", b); is(c, a, 400); twins(c);
}
static void methods(Ctx& c) {
    static const vector<string> M = {"GET", "POST", "OPTIONS", "DELETE", "HEAD", "CONNECT", "PUT", "TRACE", "PATCH", "FOO", "get", ""}, P = {"/flags", "/flags/", "/stats", "/stats/", "/status", "/status/", "/", "", "//", "/flags/x", "/flag", "/flagss", "/x/flags", "/Flags", "/flags//", "flags", "/status.", "/st*", "https://localhost", "https://localhost/", "https://localhost/status", "https://localhost/flags/"};
    gflags::FlagSaver saver; string m = c.pick(M), p = c.pick(P); static const vector<string> Q = {"", "?", "?flags=t_int32", "?/flags"}; string q = c.pick(Q); bool body = c.flip(); int end = c.choose(4, "end");
    string path = p.compare(0, 17, "https://localhost") == 0 ? p.substr(17) : p; if (path.size() > 1 && path.back() == '/') path.pop_back(); if (path.empty()) path = "/";
    Answer a = ask(c, m, p + q, body ? vector<string>{"{\"t_int32\":", "44}"} : vector<string>{}, end); int32_t was = -7;
    bool put = m == "PUT" && path == "/flags"; if (put && body && end != 1 && end != 2) was = 44; MC_CHECK(c, (FLAGS_t_int32 == was), "changed", "after the request the flag is " + std::to_string(FLAGS_t_int32)); if (end) { c.outcome("connection failed"); return; }
    if (put) { is(c, a, body ? 200 : 400); return; }
    if (m != "GET" || (path != "/flags" && path != "/stats" && path != "/status" && path != "/")) { is(c, a, 404); return; }
    is(c, a, 200);
    if (path == "/flags") { if (q == "?flags=t_int32") MC_CHECK(c, (a.body == "t_int32=-7\n"), "flags", "the flags are " + a.body); else MC_CHECK(c, (a.body.find("t_int32=-7\n") != string::npos), "flags", "the flags are " + a.body.substr(0, 200)); }
    else if (path == "/stats") { folly::dynamic all = folly::dynamic::array(); StatsManager::readAllValue(all); MC_CHECK(c, ((size_t)std::count(a.body.begin(), a.body.end(), '\n') == all.size()), "stats", "the statistics are " + a.body); }
    else { json d = parse(c, a.body); MC_CHECK(c, (d == json{{"status", "running"}, {"git_info_sha", nebula::gitInfoSha()}}), "status-body", "the status is " + a.body); }
}
// Handlers used on routes of other methods.
static void direct(Ctx& c) {
    gflags::FlagSaver saver; int k = c.choose(5, "handler"); static const vector<string> M = {"GET", "POST", "OPTIONS", "DELETE", "HEAD", "CONNECT", "PUT", "TRACE", "PATCH"}; string m = c.pick(M); static const vector<vector<string>> B = {{}, {""}, {"{\"t_int32\":3}"}, {"[1]"}, {"{"}}; auto b = c.pick(B); int end = c.choose(4, "end"); int live = RequestHandler::mcLive();
    RequestHandler* h = k == 0 ? (RequestHandler*)new nebula::GetFlagsHandler : k == 1 ? (RequestHandler*)new nebula::SetFlagsHandler : k == 2 ? (RequestHandler*)new nebula::GetStatsHandler : k == 3 ? (RequestHandler*)new nebula::StatusHandler : (RequestHandler*)new nebula::NotFoundHandler;
    HTTPMessage msg; msg.setMethod(m); msg.setURL("/any?flags=t_int32"); if (c.flip()) h->onUpgrade(proxygen::UpgradeProtocol::TCP); h->onEgressPaused(); c.step(); Answer a = serve(c, h, msg, b, end, live);
    bool sets = k == 1 && m == "PUT" && b.size() == 1 && b[0].size() > 5 && end != 1 && end != 2; MC_CHECK(c, (FLAGS_t_int32 == (sets ? 3 : -7)), "changed", "after the request the flag is " + std::to_string(FLAGS_t_int32)); if (end) { c.outcome("connection failed"); return; }
    is(c, a, k == 4 ? 404 : m != (k == 1 ? "PUT" : "GET") ? 405 : k == 1 && !sets ? 400 : 200);
}
static void history(Ctx& c) {
    gflags::FlagSaver saver; int n = c.thorough() ? 5 : 4; static const vector<string> N = {"t_int32", "t_double", "t_string"};
    for (int i = 0; i < n; ++i) switch (c.choose(8, "request")) {
        case 0: { vector<std::pair<string, Item>> l = {{"t_int32", ITEMS[2]}}; auto f = expectSet(l); checkSet(c, ask(c, "PUT", "/flags", {"{\"t_int32\":20}"}), f); break; }
        case 1: { vector<std::pair<string, Item>> l = {{"t_double", ITEMS[16]}, {"t_int32", ITEMS[12]}}; auto f = expectSet(l); checkSet(c, ask(c, "PUT", "/flags", {"{\"t_double\":\"inf\",", "\"t_int32\":\"abc\"}"}), f); break; }
        case 2: { vector<std::pair<string, Item>> l = {{"t_string", ITEMS[14]}}; auto f = expectSet(l); checkSet(c, ask(c, "PUT", "/flags/", {"{\"t_string\":\"a\\\"b\\n\\u00e9\"}"}), f); break; }
        case 3: is(c, ask(c, "PUT", "/flags", {"[1]"}), 400); break;
        case 4: checkFlags(c, ask(c, "GET", "/flags?flags=t_int32,t_double,t_string"), N, false, false); break;
        case 5: checkFlags(c, ask(c, "GET", "/flags?flags=t_int32,t_double,t_string&verbose=true&format=json"), N, true, true); break;
        case 6: ask(c, "PUT", "/flags", {"{\"t_int32\":5}"}, 2); break;
        case 7: checkFlags(c, ask(c, "GET", "/flags?verbose=true&flags=t_string,none,t_int32"), {"t_string", "none", "t_int32"}, true, false); break;
    }
    twins(c);
}
// ---- statistics
static void stats(Ctx& c) {
    static bool once = [] { auto a = StatsManager::registerStats("st", "sum,avg"), b = StatsManager::registerHisto("hi", 10, 0, 100, "count,p95"); for (int i = 1; i <= 9; ++i) { StatsManager::addValue(a, i * 1000000000000ll - 20000000000000ll); StatsManager::addValue(b, i * 10); } return true; }(); (void)once;
    static const vector<string> N = {"st.sum.60", "st.avg.3600", "st.count.5", "ST.sum.60", "st.rate.600", "hi.p95.60", "hi.count.60", "st.p95.60", "none.sum.60", "st.sum", "st.sum.61", " ", "."}; static const vector<string> F = {"", "&format=json", "&format=JSON", "&format=text"}; string f = c.pick(F); int n = c.choose(c.thorough() ? 4 : 3, "names"); vector<string> names; for (int i = 0; i < n; ++i) names.push_back(c.pick(N)); bool js = f == "&format=json";
    static const vector<string> NONE = {"", "stats=", "stats=,", "stats"}; string q = n ? "stats=" : c.pick(NONE); for (int i = 0; i < n; ++i) q += (i ? c.thorough() && i == 2 ? ",," : "," : "") + names[(size_t)i];
    Answer a = ask(c, "GET", "/stats?" + q + f); is(c, a, 200); vector<std::pair<string, json>> want; string text;
    if (n) for (auto& x : names) { auto v = StatsManager::readValue(x); want.push_back({x, v.ok() ? json(v.value()) : json(v.status().toString())}); }
    else { folly::dynamic all = folly::dynamic::array(); StatsManager::readAllValue(all); if (all.size() < 4) abort(); for (auto& x : all) for (auto& y : x.items()) want.push_back({y.first.asString(), json(y.second.asInt())}); }
    if (js) { json l = json::array(); for (auto& w : want) l.push_back(json{{w.first, w.second}}); MC_CHECK(c, (parse(c, a.body) == l), "stats", "the statistics are " + a.body + ", expected " + l.dump()); return; }
    for (auto& w : want) text += w.first + "=" + (w.second.is_string() ? w.second.get<string>() : w.second.dump()) + "\n"; MC_CHECK(c, (a.body == text), "stats", "the statistics are " + a.body + ", expected " + text);
}
// ---- routes
static vector<string> cut(const string& p) { vector<string> r; string w; for (size_t i = 1; i < p.size(); ++i) if (p[i] == '/') { r.push_back(w); w.clear(); } else w += p[i]; r.push_back(w); return r; }
static string plain(string p) { if (p.size() > 1 && p.back() == '/') p.pop_back(); return p.empty() ? "/" : p; }
static bool matches(const string& pattern, const string& path, std::map<string, string>& out) {
    auto a = cut(plain(pattern)), b = cut(plain(path)); if (plain(path)[0] != '/' || a.size() != b.size()) return false; out.clear();
    for (size_t i = 0; i < a.size(); ++i) { size_t k = a[i].find(':'); if (k == string::npos) { if (a[i] != b[i]) return false; continue; } if (b[i].size() <= k || b[i].compare(0, k, a[i], 0, k) != 0) return false; out[a[i].substr(k + 1)] = b[i].substr(k); }
    return true;
}
static void routes(Ctx& c) {
    static const vector<string> R = {"/", "", "/a", "/a/", "/b", "/a/b", "/:x", "/a/:x", "/:x/b", "/a/:x/", "/:x/:y_2", "/a/:x/b", "/a:x"}; static const vector<HTTPMethod> M = {HTTPMethod::GET, HTTPMethod::PUT, HTTPMethod::POST, HTTPMethod::DELETE};
    int pre = c.choose(2, "prefix"); string prefix = pre ? "t" : ""; int n = 1 + c.choose(c.thorough() ? 3 : 2, "routes"); struct Route { string path; HTTPMethod m; }; vector<Route> rs; int hit = -1, hits = 0; nebula::web::PathParams got; nebula::web::Router router(prefix);
    for (int i = 0; i < n; ++i) {
        Route r{c.pick(R), M[i == 0 ? (size_t)c.choose(4, "method") : (size_t)c.choose(2, "method") * 1]}; if (i && rs[0].m > HTTPMethod::PUT) r.m = rs[0].m; rs.push_back(r); auto gen = [&, i](nebula::web::PathParams&& p) -> RequestHandler* { hit = i; ++hits; got = std::move(p); return nullptr; };
        auto& x = r.m == HTTPMethod::GET ? router.get(r.path) : r.m == HTTPMethod::PUT ? router.put(r.path) : r.m == HTTPMethod::POST ? router.post(r.path) : router.del(r.path); x.handler(gen);
    }
    static const vector<string> S = {"a", "b", "ab", "", "z-9", "aa"}; static vector<string> paths = [] { vector<string> v = {""}, l = {""}; for (int d = 0; d < 3; ++d) { vector<string> k; for (auto& p : l) for (auto& s : S) k.push_back(p + "/" + s); l = k; v.insert(v.end(), k.begin(), k.end()); } auto w = v; for (auto& p : v) w.push_back(p + "/"); return w; }();
    for (auto& base : paths) for (int withPrefix = 0; withPrefix < (pre ? 2 : 1); ++withPrefix) for (int m = 0; m < 5; ++m) {
        string path = (pre && withPrefix == 0 ? "/t" : "") + base; HTTPMessage msg; if (m < 4) msg.setMethod(M[(size_t)m]); else msg.setMethod(string("FOO")); msg.setURL("https://localhost" + path + (m == 1 ? "?q=/a" : ""));
        int want = -1; std::map<string, string> wp; if (m < 4) for (int i = 0; i < n && want < 0; ++i) { string full = (pre ? "/t" : "") + (rs[(size_t)i].path.empty() ? string("/") : rs[(size_t)i].path); if (rs[(size_t)i].m == M[(size_t)m] && matches(full, path, wp)) want = i; }
        hit = -1; hits = 0; got.clear(); int live = RequestHandler::mcLive(); auto* h = router.dispatch(&msg);
        auto text = [&] { string s = m < 4 ? proxygen::methodToString(M[(size_t)m]) : "FOO"; s += " " + path + " with routes"; for (auto& r : rs) s += " " + proxygen::methodToString(r.m) + " '" + r.path + "'"; return s + (pre ? " under /t" : ""); };
        if (hit != want || hits != (want >= 0)) c.fail("route", text() + " goes to route " + std::to_string(hit) + ", expected " + std::to_string(want));
        if (want >= 0) { std::map<string, string> g(got.begin(), got.end()); if (g != wp) { string s; for (auto& x : g) s += x.first + "=" + x.second + " "; c.fail("parameters", text() + " has the parameters " + s); } }
        else { if (!dynamic_cast<nebula::NotFoundHandler*>(h)) c.fail("no-route", text() + " does not go to the handler for requests not found"); delete h; }
        if (RequestHandler::mcLive() != live) c.fail("left", "handlers are left behind"); c.outcome(want >= 0 ? "found" : "not found");
    }
    c.step();
}
static void codes(Ctx& c) { using S = nebula::HttpStatusCode; static const vector<std::pair<S, std::pair<int, string>>> T = {{S::OK, {200, "OK"}}, {S::BAD_REQUEST, {400, "Bad Request"}}, {S::FORBIDDEN, {403, "Forbidden"}}, {S::NOT_FOUND, {404, "Not Found"}}, {S::METHOD_NOT_ALLOWED, {405, "Method Not Allowed"}}}; auto& t = c.pick(T); c.step(); MC_CHECK(c, (nebula::WebServiceUtils::to(t.first) == t.second.first && nebula::WebServiceUtils::toString(t.first) == t.second.second), "code", "a status code is not what it stands for"); c.outcome("ok"); }

int main(int argc, char** argv) {
    FLAGS_minloglevel = 0; FLAGS_ws_http_port = 0; FLAGS_ws_h2_port = 0;
    return mc::run(argc, argv, "C47", {
        {"query", query, false, "up to 2 (3) of 11 flag names, known, unknown or odd, 6 forms of verbose, 5 of format, in both orders, under 4 sets of values"},
        {"every", every, false, "6 queries naming no flag, verbose or not, in both formats"},
        {"put", put, false, "up to 2 (3) of 9 flag names with 22 JSON values each, single ones in 4 divisions into chunks"},
        {"refused", refused, false, "24 bodies that are no JSON object or an empty one, in 4 divisions, and no body"},
        {"methods", methods, false, "12 methods, 22 targets, 4 queries, with and without body, the connection failing at 3 points or not"},
        {"direct", direct, false, "5 handlers, 9 methods, 5 bodies, the connection failing at 3 points or not"},
        {"history", history, false, "4 (5) of 8 requests"},
        {"stats", stats, false, "up to 2 (3) of 13 statistics names in 4 formats"},
        {"routes", routes, false, "1 or 2 (up to 3) of 13 routes with 4 methods, with and without prefix, asked for every path of up to 3 of 6 segments, with and without a slash at the end, by 5 methods"},
        {"codes", codes, false, "every status code"},
    }, {"the HTTP server is a stand-in that passes on requests and records answers", "what a text means as a value of a flag is asked of gflags itself", "paths with empty segments are compared segment by segment"});
}
