#pragma once
#include <string>
namespace folly { inline std::string codePointToUtf8(char32_t c) { std::string r; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } return r; } }
