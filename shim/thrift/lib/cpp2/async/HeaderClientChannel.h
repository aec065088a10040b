#pragma once
#include <memory>
#include "folly/io/async/AsyncSocket.h"
#include "folly/SocketAddress.h"
enum { THRIFT_UNFRAMED_DEPRECATED = 2, THRIFT_HEADER_CLIENT_TYPE = 0 };
namespace apache { namespace thrift {
namespace protocol { enum { T_BINARY_PROTOCOL = 0, T_COMPACT_PROTOCOL = 2 }; }
class RequestChannel { public: virtual ~RequestChannel() {} };
class ClientChannel : public RequestChannel {};
class HeaderClientChannel : public ClientChannel {
 public:
    std::shared_ptr<folly::AsyncTransport> t; uint32_t timeout = 0; bool ok = true; int protocol = 2, clientType = 0;
    typedef std::unique_ptr<HeaderClientChannel> Ptr;
    static Ptr newChannel(std::shared_ptr<folly::AsyncTransport> s) { Ptr p(new HeaderClientChannel()); p->t = std::move(s); return p; }
    void setTimeout(uint32_t ms) { timeout = ms; } void setProtocolId(int v) { protocol = v; } void setClientType(int v) { clientType = v; }
    bool good() { return ok; } folly::AsyncTransport* getTransport() { return t.get(); }
    folly::SocketAddress mcPeer() { auto* k = dynamic_cast<folly::AsyncSocket*>(t.get()); return k ? folly::SocketAddress(k->host, k->port) : folly::SocketAddress(); }
};
}}
