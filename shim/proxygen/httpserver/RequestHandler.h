// Stand-in for proxygen/httpserver/RequestHandler.h
#pragma once
#include <memory>
#include <folly/io/IOBuf.h>
#include <folly/dynamic.h>
#include <folly/json.h>
#include "proxygen/lib/http/HTTPMessage.h"
#include "proxygen/lib/http/ProxygenErrorEnum.h"
#include "proxygen/httpserver/ResponseHandler.h"
namespace proxygen {
class RequestHandler {
 public:
    static int& mcLive() { static int n = 0; return n; }
    RequestHandler() { ++mcLive(); } virtual ~RequestHandler() { --mcLive(); }
    RequestHandler(const RequestHandler&) = delete;
    virtual void setResponseHandler(ResponseHandler* h) noexcept { downstream_ = h; }
    virtual void onRequest(std::unique_ptr<HTTPMessage> h) noexcept = 0;
    virtual void onBody(std::unique_ptr<folly::IOBuf> b) noexcept = 0;
    virtual void onUpgrade(UpgradeProtocol p) noexcept = 0;
    virtual void onEOM() noexcept = 0;
    virtual void requestComplete() noexcept = 0;
    virtual void onError(ProxygenError e) noexcept = 0;
    virtual void onEgressPaused() noexcept {} virtual void onEgressResumed() noexcept {} virtual bool canHandleExpect() noexcept { return false; }
 protected:
    ResponseHandler* downstream_{nullptr};
};
}  // namespace proxygen
