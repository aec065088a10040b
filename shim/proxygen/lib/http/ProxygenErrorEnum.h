// Stand-in for proxygen/lib/http/ProxygenErrorEnum.h
#pragma once
#include <ostream>
namespace proxygen {
enum ProxygenError { kErrorNone, kErrorMessage, kErrorConnect, kErrorWrite, kErrorRead, kErrorEOF, kErrorTimeout, kErrorClientReset, kErrorUnknown, kErrorMax };
inline const char* getErrorString(ProxygenError e) { static const char* n[] = {"None", "Message", "Connect", "Write", "Read", "EOF", "Timeout", "ClientReset", "Unknown", "Max"}; return e >= 0 && e <= kErrorMax ? n[e] : "Undefined"; }
enum class UpgradeProtocol { TCP };
}  // namespace proxygen
