#pragma once
#include <string>
#include <optional>
#include <pthread.h>
namespace folly { inline bool setThreadName(const std::string&) { return true; } inline std::optional<std::string> getCurrentThreadName() { return std::string(); } }
