#pragma once
#include <memory>
#include <string>
#include "folly/io/async/EventBase.h"
namespace folly {
class AsyncTransport { public: virtual ~AsyncTransport() {} virtual bool good() const { return true; } };
typedef AsyncTransport AsyncTransportWrapper;
class AsyncSocket : public AsyncTransport { public: std::string host; uint16_t port; bool hup = false; EventBase* base = nullptr; bool madeOnBase = false; uint32_t connTimeout = 0; bool hangup() const { return hup; } static std::shared_ptr<AsyncSocket> newSocket(EventBase* b, const std::string& h, uint16_t p, uint32_t ct = 0) { auto s = std::make_shared<AsyncSocket>(); s->host = h; s->port = p; s->base = b; s->madeOnBase = EventBase::mcOn() == b; s->connTimeout = ct; return s; } };
}
