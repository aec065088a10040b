// Stand-in for proxygen/httpserver/RequestHandlerFactory.h
#pragma once
#include <memory>
#include <vector>
#include <folly/io/async/EventBase.h>
#include "proxygen/httpserver/RequestHandler.h"
namespace proxygen {
class RequestHandlerFactory { public: virtual ~RequestHandlerFactory() {} virtual void onServerStart(folly::EventBase*) noexcept = 0; virtual void onServerStop() noexcept = 0; virtual RequestHandler* onRequest(RequestHandler*, HTTPMessage*) noexcept = 0; };
class RequestHandlerChain {
    std::vector<std::unique_ptr<RequestHandlerFactory>> c_;
 public:
    std::vector<std::unique_ptr<RequestHandlerFactory>> build() { return std::move(c_); }
    template <class T, class... A> RequestHandlerChain& addThen(A&&... a) { c_.push_back(std::make_unique<T>(std::forward<A>(a)...)); return *this; }
};
}  // namespace proxygen
