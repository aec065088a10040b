// Stand-in for proxygen/httpserver/HTTPServer.h: start() reports success or failure as the
// harness says and, after a success, blocks until stop().
#pragma once
#include <condition_variable>
#include <exception>
#include <functional>
#include <mutex>
#include <folly/SocketAddress.h>
#include "proxygen/httpserver/HTTPServerOptions.h"
namespace proxygen {
class HTTPServer {
 public:
    enum class Protocol { HTTP, SPDY, HTTP2 };
    struct IPConfig { IPConfig(folly::SocketAddress a, Protocol p) : address(a), protocol(p) {} folly::SocketAddress address; Protocol protocol; };
    static HTTPServer*& mcLast() { static HTTPServer* s = nullptr; return s; }
    static std::function<bool(HTTPServer&, std::exception_ptr&)>& mcStart() { static std::function<bool(HTTPServer&, std::exception_ptr&)> f; return f; }   // whether it starts, and why not
    static std::function<void(HTTPServer&, int)>& mcWait() { static std::function<void(HTTPServer&, int)> f; return f; }   // 0: serve until stopped; 1: stopped
    explicit HTTPServer(HTTPServerOptions o) : options(std::move(o)) { mcLast() = this; }
    ~HTTPServer() { if (mcLast() == this) mcLast() = nullptr; }
    void bind(std::vector<IPConfig>&& a) { ips = std::move(a); } void bind(std::vector<IPConfig> const& a) { ips = a; }
    void start(std::function<void()> ok = nullptr, std::function<void(std::exception_ptr)> err = nullptr) {
        std::exception_ptr e;
        if (mcStart() && !mcStart()(*this, e)) { if (err) { err(e); return; } std::rethrow_exception(e); }
        if (ok) ok();
        if (mcWait()) mcWait()(*this, 0);
    }
    void stop() { if (mcWait()) mcWait()(*this, 1); }
    const std::vector<IPConfig>& addresses() const { return ips; }
    HTTPServerOptions options; std::vector<IPConfig> ips;
};
}  // namespace proxygen
