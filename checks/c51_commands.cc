// C51: commands: the whole output comes back whatever its pieces, and what is asked of curl and hdfs is what the shell would hand them.
#include "metabox.h"
#include "shellwords.h"
#include <glog/logging.h>
#include <nlohmann/json.hpp>
#include "common/hdfs/HdfsCommandHelper.h"
#include "common/http/HttpClient.h"
#include "common/process/ProcessUtils.h"
using namespace metabox; using mc::Ctx; using nebula::ProcessUtils; using nebula::http::HttpClient; using nebula::hdfs::HdfsCommandHelper;
DECLARE_int32(ws_meta_http_port);

// ---- the system: a command is recorded; its output arrives in chosen pieces, or fails
struct Piece { int size; int err; };
static vector<string> g_cmds; static string g_out; static vector<Piece> g_pieces; static int g_popenErr = 0, g_open = 0, g_status = 0; static bool g_broken = false; static string g_mode;
struct Pipe { size_t at = 0; size_t piece = 0; };
static ssize_t pipeRead(void* v, char* b, size_t n) {
    auto* p = (Pipe*)v; size_t left = g_out.size() - p->at, k = std::min(n, left);
    if (p->piece < g_pieces.size()) { Piece q = g_pieces[p->piece++]; if (q.err) { g_broken = true; errno = q.err; return -1; } k = std::min(k, (size_t)q.size); }
    memcpy(b, g_out.data() + p->at, k); p->at += k; return (ssize_t)k;
}
static int pipeClose(void* v) { --g_open; delete (Pipe*)v; return 0; }
extern "C" FILE* popen(const char* cmd, const char* mode) {
    g_cmds.push_back(cmd); g_mode = mode; if (g_popenErr) { errno = g_popenErr; return nullptr; }
    ++g_open; cookie_io_functions_t io{pipeRead, nullptr, nullptr, pipeClose}; return fopencookie(new Pipe(), "r", io);
}
extern "C" int pclose(FILE* f) { fclose(f); return g_status; }
static void reset(const string& out) { g_cmds.clear(); g_out = out; g_pieces.clear(); g_popenErr = 0; g_open = 0; g_status = 0; g_broken = false; }
static string show(const string& s) { string r; for (unsigned char ch : s) if (ch >= 32 && ch < 127) r += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } return r.size() > 160 ? r.substr(0, 160) + "..." : r; }

static void output(Ctx& c) {
    static const vector<int> SZ = {0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5120, 9000}, PC = {1, 7, 1023, 1024, 1025, 4096, 0};
    int n = c.pick(SZ), fill = c.choose(3, "content"); string o((size_t)n, 'a'); for (int i = 0; i < n; ++i) o[i] = fill == 0 ? (char)('a' + i % 26) : fill == 1 ? (char)(i * 7 % 256) : (i % 1024 ? '\n' : '\0');
    reset(o); int np = c.choose(c.thorough() ? 5 : 4, "pieces");
    for (int i = 0; i < np; ++i) { int k = c.choose((int)PC.size() + 1, "piece"); if (k == (int)PC.size()) g_pieces.push_back({0, EIO}); else if (PC[k] == 0) g_pieces.push_back({0, EINTR}); else g_pieces.push_back({PC[k], 0}); }
    if (np == 0) { if (c.flip()) g_popenErr = EMFILE; g_status = c.flip() ? 256 : 0; }
    auto r = ProcessUtils::runCommand("some command"); c.step();
    MC_CHECK(c, (g_cmds.size() == 1 && g_cmds[0] == "some command"), "command", "the command run is not the one given");
    MC_CHECK(c, (g_mode.find('r') == 0), "mode", "the command's output is not read");
    MC_CHECK(c, (g_open == 0), "open", "the command's stream is closed " + std::to_string(1 - g_open) + " times");
    if (g_popenErr) { MC_CHECK(c, (!r.ok()), "popen", "a command that could not be run gives " + show(r.value())); c.outcome("not run"); return; }
    if (!r.ok()) { MC_CHECK(c, (g_broken), "refused", "an output of " + std::to_string(n) + " bytes gives an error"); c.outcome("error"); return; }
    MC_CHECK(c, (r.value() == o), g_broken ? "partial" : "output", "of an output of " + std::to_string(n) + " bytes " + std::to_string(r.value().size()) + " come back" + (g_broken ? " as if they were all, although reading failed" : r.value().size() == o.size() ? ", changed" : ""));
    c.outcome("whole");
}

// ---- what curl is asked to do
struct Curl { string method = "GET", url, data; vector<string> headers; bool g = false, haveData = false; int urls = 0; vector<string> other; };
static Curl curlOf(Ctx& c, const string& cmd) {
    vector<string> w; try { w = shellWords(cmd); } catch (std::exception& e) { c.fail("shell", "the shell does not run what was asked: " + string(e.what()) + " in: " + show(cmd)); }
    Curl r; MC_CHECK(c, (!w.empty() && (w[0] == "curl" || w[0] == "/usr/bin/curl")), "program", "the program run is not curl: " + show(cmd));
    auto arg = [&](size_t& i) -> string { MC_CHECK(c, (i + 1 < w.size()), "argument", "an option lacks its argument: " + show(cmd)); return w[++i]; };
    for (size_t i = 1; i < w.size(); ++i) {
        const string& a = w[i];
        if (a == "-X") r.method = arg(i); else if (a.rfind("-H", 0) == 0) r.headers.push_back(a.size() > 2 ? a.substr(2) : arg(i));
        else if (a == "--data-raw" || a == "--data") { r.haveData = true; r.data = arg(i); } else if (a.rfind("-d", 0) == 0) { r.haveData = true; r.data = a.size() > 2 ? a.substr(2) : arg(i); }
        else if (a == "-G") r.g = true; else if (a == "-s" || a == "-S" || a == "-sS") {} else if (a.size() > 1 && a[0] == '-') r.other.push_back(a); else { ++r.urls; r.url = a; }
    }
    return r;
}
static const vector<string>& bits() { static const vector<string> B = {"a", " ", "\"", "'", "$", "`", "\\", ";", "&", "?", "*", "$(x)", "\n", "|", "#", "%20", "=", "~", "!", "\xc3\xa9", "<"}; return B; }
static string some(Ctx& c, int max) { int n = c.choose(max + 1, "bits"); string s; for (int i = 0; i < n; ++i) s += c.pick(bits()); return s; }

static void http(Ctx& c) {
    bool th = c.thorough(); int op = c.choose(9, "operation");   // get, get opts, post/put of header text, of a map, of a document, of none
    bool dat = op > 1 && (op - 2) % 4 != 0 && (op - 2) % 4 != 3; string url = "http://127.0.0.1:19559/x" + some(c, dat ? 1 : th ? 3 : 2); bool data = false; nlohmann::json want; Curl w; w.url = url; string out = c.flip() ? "answer\n" : ""; reset(out); if (c.flip()) g_popenErr = EAGAIN;
    StatusOr<string> r = Status::Error("x"); int o = op <= 1 ? 0 : (op - 2) % 4;   // text, map, document, nothing; post 2..5; put 6..8 (without nothing)
    bool put = op >= 6; w.method = op <= 1 ? "GET" : put ? "PUT" : "POST";
    if (op == 0) { w.g = true; r = HttpClient::get(url); }
    else if (op == 1) { static const vector<std::pair<string, vector<string>>> O = {{"-G", {}}, {"", {}}, {"-H \"a: b\"", {"a: b"}}}; auto& p = c.pick(O); w.g = p.first == "-G"; w.headers = p.second; r = HttpClient::get(url, p.first); }
    else if (o == 0) { w.headers = {"k: v w"}; string h = "-H \"k: v w\""; r = put ? HttpClient::put(url, h) : HttpClient::post(url, h); }
    else if (o == 3) r = HttpClient::post(url);
    else {
        string k = "k" + some(c, 1), v = some(c, th ? 2 : 1); int n = c.choose(3, "entries"); std::unordered_map<string, string> m; want = nlohmann::json::object();
        if (n > 0) { m[k] = v; want[k] = v; } if (n > 1) { m["other"] = "v"; want["other"] = "v"; } data = n > 0;
        if (o == 1) r = put ? HttpClient::put(url, m) : HttpClient::post(url, m);
        else { folly::dynamic d = folly::dynamic::object; for (auto& e : m) d[e.first] = e.second; if (n > 1) { d["list"] = folly::dynamic::array(1, 2.5, nullptr, true, v); want["list"] = {1, 2.5, nullptr, true, v}; } r = put ? HttpClient::put(url, d) : HttpClient::post(url, d); }
        if (data) w.headers = {"Content-Type: application/json"};
    }
    c.step(); MC_CHECK(c, (g_cmds.size() == 1), "once", std::to_string(g_cmds.size()) + " commands are run for a request"); Curl g = curlOf(c, g_cmds[0]); string cmd = show(g_cmds[0]);
    MC_CHECK(c, (g.urls == 1 && g.url == url), "url", "the address asked is " + show(g.url) + " (" + std::to_string(g.urls) + " addresses) instead of " + show(url) + " in: " + cmd);
    MC_CHECK(c, (g.method == w.method), "method", "the request is a " + g.method + " instead of a " + w.method); MC_CHECK(c, (g.g == w.g && g.other.empty() && g.headers == w.headers), "options", "the options are not those given: " + cmd);
    MC_CHECK(c, (g.haveData == data), "data", data ? "the data is not sent: " + cmd : "data is sent although there is none: " + cmd);
    if (data) { nlohmann::json got = nlohmann::json::parse(g.data, nullptr, false); MC_CHECK(c, (got == want), "content", "the data sent is " + show(g.data) + " instead of " + show(want.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace))); }
    if (g_popenErr) MC_CHECK(c, (!r.ok()), "failed", "a request that could not be sent is reported as answered"); else MC_CHECK(c, (r.ok() && r.value() == out), "answer", "the answer is not handed on");
    c.outcome(w.method + (data ? "d" : ""));
}
static void hdfs(Ctx& c) {
    bool ls = c.flip(); string host = c.flip() ? "127.0.0.1" : "host"; int port = c.flip() ? 9000 : 65535; string path = "/" + some(c, ls && c.thorough() ? 4 : 3), local = ls ? "" : "/data/" + some(c, 1);
    reset("out"); g_popenErr = c.flip() ? ENOMEM : 0; HdfsCommandHelper h; auto r = ls ? h.ls(host, port, path) : h.copyToLocal(host, port, path, local); c.step();
    MC_CHECK(c, (g_cmds.size() == 1), "once", std::to_string(g_cmds.size()) + " commands are run"); vector<string> w; try { w = shellWords(g_cmds[0]); } catch (std::exception& e) { c.fail("shell", "the shell does not run what was asked: " + string(e.what()) + " in: " + show(g_cmds[0])); }
    vector<string> want = {"hdfs", "dfs", ls ? "-ls" : "-copyToLocal", "hdfs://" + host + ":" + std::to_string(port) + path}; if (!ls) want.push_back(local);
    MC_CHECK(c, (w == want), "hdfs", "the shell would run " + show(folly::join(" | ", w)) + " instead of " + show(folly::join(" | ", want)));
    MC_CHECK(c, (g_popenErr ? !r.ok() : r.ok() && r.value() == "out"), "answer", "the output is not handed on"); c.outcome(ls ? "ls" : "copy");
}
// ---- bulk loading through the metadata client
static void bulk(Ctx& c) {
    bool dl = c.flip(); string good = dl ? "SSTFile dispatch successfully" : "SSTFile ingest successfully"; string host = c.flip() ? "127.0.0.1" : "10.1.2.3"; int port = c.flip() ? 9000 : 1, space = c.flip() ? 7 : 2147483647; string path = dl ? "/" + some(c, c.thorough() ? 3 : 2) : "";
    static const vector<string> O = {"", "x", "SSTFile dispatch failed", "SSTFile", "good\n"}; int o = c.choose((int)O.size() + 3, "answer"); string out = o == 0 ? good : o == 1 ? (dl ? "SSTFile ingest successfully" : "SSTFile dispatch successfully") : o == 2 ? "" : O[o - 3]; bool fails = o == 2;
    Cluster cl; Server s; s.cl = &cl; srv = &s; auto io = std::make_shared<folly::IOThreadPoolExecutor>(1); pool = io.get(); install(); m::MetaClientOptions op; op.localHost_ = HostAddr("127.0.0.1", 1);
    auto mcl = std::make_unique<metabox::Client>(io, vector<HostAddr>{{"127.0.0.1", 45500}}, op);
    reset(out); g_popenErr = fails ? EMFILE : 0; FLAGS_ws_meta_http_port = 11000; auto f = dl ? mcl->download(host, port, path, space) : mcl->ingest(space); auto r = std::move(f).get(); c.step();
    string url = "http://127.0.0.1:11000/" + (dl ? "download-dispatch?host=" + host + "&port=" + std::to_string(port) + "&path=" + path + "&space=" : string("ingest-dispatch?space=")) + std::to_string(space);
    MC_CHECK(c, (g_cmds.size() == 1), "once", std::to_string(g_cmds.size()) + " commands are run"); Curl g = curlOf(c, g_cmds[0]); MC_CHECK(c, (g.urls == 1 && g.url == url && g.method == "GET"), "url", "the address asked is " + show(g.url) + " instead of " + show(url));
    bool yes = r.ok() && r.value(); MC_CHECK(c, (yes == (o == 0)), "verdict", string(yes ? "success" : "failure") + " is reported for the answer '" + show(out) + "'" + (fails ? " of a request that could not be sent" : "")); c.outcome(yes ? "yes" : "no");
    mcl.reset(); pool = nullptr; srv = nullptr;
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]); FLAGS_minloglevel = 0;
    return mc::run(argc, argv, "C51", {
        {"output", output, false, "12 lengths of output at and around the sizes of the buffers, 3 contents, every sequence of up to 3 (4) reads that give one of 6 sizes, are interrupted or fail"},
        {"http", http, false, "every kind of request to addresses with up to 2 (3) of 21 texts special to the shell; with data, one in the address, one in the key and up to 1 (2) in the value"},
        {"hdfs", hdfs, false, "both commands with paths of up to 3 (4) of 21 texts"},
        {"bulk", bulk, false, "download and ingest with paths of up to 2 (3) of 21 texts and 8 answers"},
    }, {"The command interpreter is a stand-in that records the command; the words it would run are those of sh(1) without expansions.", "Options given as text to a request are meant for the shell."});
}
