// Stand-in for proxygen/httpserver/HTTPServerOptions.h
#pragma once
#include <chrono>
#include "proxygen/httpserver/RequestHandlerFactory.h"
namespace proxygen {
struct HTTPServerOptions { size_t threads = 1; std::vector<std::unique_ptr<RequestHandlerFactory>> handlerFactories; std::chrono::milliseconds idleTimeout{60000}; bool enableContentCompression = false, h2cEnabled = false; std::vector<int> shutdownOn; };
}  // namespace proxygen
