// Stand-in for proxygen/lib/http/HTTPMethod.h
#pragma once
#include <boost/optional.hpp>
#include <string>
namespace proxygen {
enum class HTTPMethod { GET, POST, OPTIONS, DELETE, HEAD, CONNECT, CONNECT_UDP, PUT, TRACE, PATCH };
inline const std::string& methodToString(HTTPMethod m) { static const std::string n[] = {"GET", "POST", "OPTIONS", "DELETE", "HEAD", "CONNECT", "CONNECT-UDP", "PUT", "TRACE", "PATCH"}; return n[(int)m]; }
inline boost::optional<HTTPMethod> stringToMethod(const std::string& s) { for (int i = 0; i < 10; ++i) if (methodToString((HTTPMethod)i) == s) return (HTTPMethod)i; return boost::none; }
}  // namespace proxygen
