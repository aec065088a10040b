#pragma once
#include <arpa/inet.h>
#include <functional>
#include <stdexcept>
#include <string>
namespace folly {
struct IPAddress { static bool validate(const std::string& s) { unsigned char b[16]; return inet_pton(AF_INET, s.c_str(), b) == 1 || inet_pton(AF_INET6, s.c_str(), b) == 1; } };
// how names are resolved (a name resolves to itself unless the check says otherwise); may throw
inline std::function<std::string(const std::string&)> mcResolve;
class SocketAddress { std::string h_; uint16_t p_ = 0; public: SocketAddress() {} SocketAddress(const std::string& h, uint16_t p, bool resolve = false) : h_(resolve && mcResolve ? mcResolve(h) : h), p_(p) {} std::string getAddressStr() const { return h_; } uint16_t getPort() const { return p_; } std::string describe() const { return h_ + ":" + std::to_string(p_); } void setFromIpPort(const std::string& h, uint16_t p) { h_ = h; p_ = p; } bool isInitialized() const { return !h_.empty(); } };
}
