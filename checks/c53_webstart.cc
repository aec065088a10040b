// C53: starting and stopping the web service: every interleaving of the caller with the listening thread, with the server starting or failing in every way.
#include "common/base/Base.h"
#include "mc.h"
#include "vsched.h"
#include "common/webservice/WebService.h"
#include "common/webservice/Router.h"
#include "common/webservice/StatusHandler.h"
#include "common/time/WallClock.h"
#include <proxygen/httpserver/HTTPServer.h>
#include <memory>
using mc::Ctx; using std::string; using nebula::WebService; using proxygen::HTTPServer;
DECLARE_int32(ws_http_port); DECLARE_int32(ws_h2_port); DECLARE_int32(ws_threads); DECLARE_string(ws_ip);
namespace nebula { string gitInfoSha() { return "sha"; }
namespace time { int64_t WallClock::fastNowInSec() { return 1000000; } int64_t WallClock::slowNowInSec() { return 1000000; } int64_t WallClock::slowNowInMilliSec() { return 1000000000; } int64_t WallClock::fastNowInMilliSec() { return 1000000000; } int64_t WallClock::slowNowInMicroSec() { return 1000000000000; } int64_t WallClock::fastNowInMicroSec() { return 1000000000000; } } }
#define NT __attribute__((no_sanitize("thread")))
// what happens to the stand-in of the server, outside the model
struct World { int starts = 0, stops = 0, serving = 0; bool stopped = false, reported = false; int who = -1, stopper = -1; };
static World w; static int g_how; static string g_why;
NT static bool onStart(HTTPServer& s, std::exception_ptr& e) {
    mc::sched::point(); ++w.starts; w.who = mc::sched::self(); w.reported = true;
    if (g_how == 0) { if (s.ips.size() == 2) for (int i = 0; i < 2; ++i) if (s.ips[(size_t)i].address.getPort() == 0) s.ips[(size_t)i].address.setFromIpPort(s.ips[(size_t)i].address.getAddressStr(), (uint16_t)(40001 + i)); return true; }
    try { throw std::runtime_error(g_why); } catch (...) { e = std::current_exception(); } return false;
}
NT static bool isStopped() { return w.stopped; }
NT static void onWait(HTTPServer&, int stop) {
    if (stop) { mc::sched::point(); ++w.stops; w.stopper = mc::sched::self(); w.stopped = true; return; }
    ++w.serving; mc::sched::block_until(isStopped, "serving"); --w.serving;
}
NT static World snapshot() { return w; }
static void life(Ctx& c) {
    static const std::vector<std::pair<int, int>> P = {{0, 0}, {11000, 11002}, {0, 11002}, {11000, 0}}; auto p = c.pick(P); g_how = c.choose(3, "start"); int calls = c.choose(3, "calls"), kind = c.choose(2, "kind"), threads = kind ? 4 : 1; g_why = g_how == 1 ? "Address already in use" : "100% %s%n bad"; static const string name[] = {"", "storage"}; string n = name[kind]; bool extra = kind;
    w = World(); FLAGS_ws_http_port = p.first; FLAGS_ws_h2_port = p.second; FLAGS_ws_threads = threads; FLAGS_ws_ip = "127.0.0.9";
    HTTPServer::mcStart() = onStart; HTTPServer::mcWait() = onWait; HTTPServer::mcLast() = nullptr;
    mc::sched::Opts o; o.pool = false; o.preemptions = c.thorough() ? 3 : 2; o.cond_lifetime = true; o.spurious = c.thorough() ? 1 : 0;
    mc::sched::run(c, o, [&] {
        auto ws = std::make_unique<WebService>(n); MC_CHECK(c, (!ws->started()), "started", "a new service is started");
        if (extra) ws->router().get("/extra").handler([](nebula::web::PathParams&&) { return new nebula::StatusHandler(); });
        if (calls) {
            auto s = ws->start(); World x = snapshot(); HTTPServer* srv = HTTPServer::mcLast();
            MC_CHECK(c, (x.starts == 1 && x.reported && x.who != mc::sched::self()), "starts", "the server was started " + std::to_string(x.starts) + " times when start() returned");
            MC_CHECK(c, (s.ok() == (g_how == 0)), "status", "start() returned " + s.toString()); if (g_how == 1) MC_CHECK(c, (s.toString().find(g_why) != string::npos), "reason", "start() returned " + s.toString() + ", the reason was " + g_why);
            if (g_how == 0) {
                int h = p.first ? p.first : 40001, h2 = p.second ? p.second : 40002; MC_CHECK(c, (FLAGS_ws_http_port == h && FLAGS_ws_h2_port == h2), "ports", "after the start the ports are " + std::to_string(FLAGS_ws_http_port) + " and " + std::to_string(FLAGS_ws_h2_port));
                MC_CHECK(c, (srv && srv->ips.size() == 2 && srv->ips[0].protocol == HTTPServer::Protocol::HTTP && srv->ips[1].protocol == HTTPServer::Protocol::HTTP2 && srv->ips[0].address.getAddressStr() == "127.0.0.9" && srv->ips[1].address.getAddressStr() == "127.0.0.9" && srv->ips[0].address.getPort() == h && srv->ips[1].address.getPort() == h2), "addresses", "the addresses served are not those configured");
                MC_CHECK(c, (srv->options.threads == (size_t)threads && srv->options.h2cEnabled && srv->options.handlerFactories.size() == 1), "options", "the server has other options than configured"); MC_CHECK(c, (ws->started()), "started", "a started service does not say so"); MC_CHECK(c, (x.stops == 0), "stopped", "the service was stopped");
                for (string path : {"/status", "/flags", "/stats", "/", "/extra"}) { proxygen::HTTPMessage m; m.setMethod(proxygen::HTTPMethod::GET); m.setURL((n.empty() ? "" : "/" + n) + path); std::unique_ptr<proxygen::RequestHandler> r(srv->options.handlerFactories[0]->onRequest(nullptr, &m)); proxygen::ResponseHandler a; r->setResponseHandler(&a); r->onRequest(std::make_unique<proxygen::HTTPMessage>(m)); r->onEOM(); MC_CHECK(c, (a.sent.size() == 1 && a.sent[0].code == (path == "/extra" && !extra ? 404 : 200)), "route", path + " is answered " + (a.sent.empty() ? string("not at all") : std::to_string(a.sent[0].code))); }
                if (calls == 2) { auto again = ws->start(); World y = snapshot(); MC_CHECK(c, (again.ok() && y.starts == 1 && HTTPServer::mcLast() == srv), "again", "starting a started service starts another server, or fails"); }
            }
        }
        ws.reset(); World x = snapshot();
        if (calls && g_how == 0) MC_CHECK(c, (x.stops == 1 && x.stopper != x.who), "stops", "the server was stopped " + std::to_string(x.stops) + " times");
        MC_CHECK(c, (x.serving == 0), "serving", "the server still serves after the service is gone"); MC_CHECK(c, (HTTPServer::mcLast() == nullptr), "kept", "the server is still there after the service is gone");
    });
    c.step(); c.outcome(!calls ? "not started" : g_how == 0 ? "started" : "failed");
}
int main(int argc, char** argv) {
    FLAGS_minloglevel = 0;
    return mc::run(argc, argv, "C53", {{"life", life, false, "4 settings of the ports, the server starting or failing for 2 reasons, started never, once or twice, with and without a name, one or more threads and a route of the caller's, all interleavings with up to 2 (3) preemptions (and one spurious wakeup)"}}, {"the HTTP server is a stand-in that serves until stopped"});
}
