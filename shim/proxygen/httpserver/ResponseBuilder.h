// Stand-in for proxygen/httpserver/ResponseBuilder.h
#pragma once
#include <string>
#include <folly/Conv.h>
#include "proxygen/httpserver/ResponseHandler.h"
#include "proxygen/lib/http/HTTPMessage.h"
#include <folly/io/IOBuf.h>
namespace proxygen {
class ResponseBuilder {
    ResponseHandler* t_; ResponseHandler::Sent s_;
 public:
    explicit ResponseBuilder(ResponseHandler* t) : t_(t) {}
    ResponseBuilder& status(uint16_t code, const std::string& m) { s_.code = code; s_.message = m; s_.status = true; return *this; }
    ResponseBuilder& header(const std::string&, const std::string&) { return *this; }
    ResponseBuilder& body(std::unique_ptr<folly::IOBuf> b) { if (b) s_.body += b->to<std::string>(); return *this; }
    template <class T> ResponseBuilder& body(T&& t) { s_.body += folly::to<std::string>(std::forward<T>(t)); return *this; }
    void send() { t_->sent.push_back(s_); s_ = {}; }
    void sendWithEOM() { s_.eom = true; send(); }
};
}  // namespace proxygen
