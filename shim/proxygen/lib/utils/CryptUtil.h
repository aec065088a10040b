// Stand-in for proxygen/lib/utils/CryptUtil.h: RFC 1321 and RFC 4648 written out.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <folly/Range.h>
namespace proxygen {
inline std::string base64Encode(folly::ByteRange b) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; size_t n = b.size(); const unsigned char* p = b.data();
    for (size_t i = 0; i < n; i += 3) { uint32_t v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < n ? A[v >> 6 & 63] : '='; o += i + 2 < n ? A[v & 63] : '='; }
    return o;
}
inline std::string md5Encode(folly::ByteRange b) {
    static const int R[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
    static uint32_t K[64]; static bool k = [] { for (int i = 0; i < 64; ++i) K[i] = (uint32_t)(int64_t)std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0); return true; }(); (void)k;
    std::string m(reinterpret_cast<const char*>(b.data()), b.size()); uint64_t bits = m.size() * 8ull; m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; for (int i = 0; i < 8; ++i) m += (char)(bits >> 8 * i);
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[16]; for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 3; j >= 0; --j) w[i] = w[i] << 8 | (unsigned char)m[o + 4 * i + j]; }
        uint32_t a = h[0], c = h[2], d = h[3], bb = h[1];
        for (int i = 0; i < 64; ++i) {
            uint32_t f; int g; if (i < 16) { f = (bb & c) | (~bb & d); g = i; } else if (i < 32) { f = (d & bb) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = bb ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (bb | ~d); g = 7 * i % 16; }
            uint32_t t = d; d = c; c = bb; uint32_t x = a + f + K[i] + w[g]; bb = bb + (x << R[i] | x >> (32 - R[i])); a = t;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d;
    }
    std::string o; static const char* H = "0123456789abcdef"; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { unsigned v = h[i] >> 8 * j & 255; o += H[v >> 4]; o += H[v & 15]; } return o;
}
}  // namespace proxygen
