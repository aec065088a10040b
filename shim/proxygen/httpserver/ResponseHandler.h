// Stand-in for proxygen/httpserver/ResponseHandler.h: records what is sent.
#pragma once
#include <string>
#include <vector>
namespace proxygen {
class ResponseHandler { public: struct Sent { int code = 0; std::string message, body; bool eom = false, status = false; }; std::vector<Sent> sent; };
}  // namespace proxygen
