// Stand-in for proxygen/lib/http/HTTPMessage.h: the request line only.  A method that is not
// in the enumeration is kept as text, and getMethod() is then empty; query parameters are not decoded.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include "proxygen/lib/http/HTTPMethod.h"
namespace proxygen {
class HTTPMessage {
    std::string method_, url_, path_, query_; std::map<std::string, std::string> params_; bool has_ = false;
 public:
    void setMethod(HTTPMethod m) { method_ = methodToString(m); has_ = true; }
    void setMethod(const std::string& m) { method_ = m; has_ = true; }
    boost::optional<HTTPMethod> getMethod() const { return has_ ? stringToMethod(method_) : boost::none; }
    const std::string& getMethodString() const { return method_; }
    void setURL(const std::string& u) {
        url_ = u; std::string s = u; size_t p = s.find("://"); if (p != std::string::npos) { p = s.find_first_of("/?", p + 3); s = p == std::string::npos ? "" : s.substr(p); }
        size_t f = s.find('#'); if (f != std::string::npos) s.resize(f);
        size_t q = s.find('?'); path_ = s.substr(0, q); query_ = q == std::string::npos ? "" : s.substr(q + 1); params_.clear();
        for (size_t a = 0; a <= query_.size();) { size_t b = query_.find('&', a); if (b == std::string::npos) b = query_.size(); std::string kv = query_.substr(a, b - a); a = b + 1; if (kv.empty()) continue; size_t e = kv.find('='); params_.emplace(kv.substr(0, e), e == std::string::npos ? "" : kv.substr(e + 1)); }
    }
    const std::string& getURL() const { return url_; } const std::string& getPath() const { return path_; } const std::string& getPathAsStringPiece() const { return path_; } const std::string& getQueryString() const { return query_; }
    bool hasQueryParam(const std::string& n) const { return params_.count(n) > 0; }
    const std::string& getQueryParam(const std::string& n) const { static const std::string none; auto i = params_.find(n); return i == params_.end() ? none : i->second; }
    const std::string* getQueryParamPtr(const std::string& n) const { auto i = params_.find(n); return i == params_.end() ? nullptr : &i->second; }
    const std::map<std::string, std::string>& getQueryParams() const { return params_; }
};
}  // namespace proxygen
