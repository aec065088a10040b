// Stand-in for folly/hash/Hash.h: the FNV functions are the published algorithms.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <tuple>
#include <utility>
#include "folly/Range.h"
namespace folly { namespace hash {
const uint32_t FNV_32_HASH_START = 2166136261UL;
const uint64_t FNV_64_HASH_START = 14695981039346656037ULL;
const uint64_t FNVA_64_HASH_START = 14695981039346656037ULL;
inline uint32_t fnv32_buf(const void* buf, size_t n, uint32_t h = FNV_32_HASH_START) { const signed char* p = (const signed char*)buf; for (size_t i = 0; i < n; i++) { h += (h << 1) + (h << 4) + (h << 7) + (h << 8) + (h << 24); h ^= (uint32_t)p[i]; } return h; }
inline uint32_t fnv32(const char* s, uint32_t h = FNV_32_HASH_START) { return fnv32_buf(s, strlen(s), h); }
inline uint32_t fnv32(const std::string& s, uint32_t h = FNV_32_HASH_START) { return fnv32_buf(s.data(), s.size(), h); }
inline uint64_t fnv64_buf(const void* buf, size_t n, uint64_t h = FNV_64_HASH_START) { const signed char* p = (const signed char*)buf; for (size_t i = 0; i < n; i++) { h += (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); h ^= (uint64_t)p[i]; } return h; }
inline uint64_t fnv64(const char* s, uint64_t h = FNV_64_HASH_START) { return fnv64_buf(s, strlen(s), h); }
inline uint64_t fnv64(const std::string& s, uint64_t h = FNV_64_HASH_START) { return fnv64_buf(s.data(), s.size(), h); }
inline uint64_t hash_128_to_64(uint64_t up, uint64_t lo) { const uint64_t k = 0x9ddfea08eb382d69ULL; uint64_t a = (lo ^ up) * k; a ^= a >> 47; uint64_t b = (up ^ a) * k; b ^= b >> 47; return b * k; }
class SpookyHashV2 {
 public:
    static uint64_t Hash64(const void* p, size_t n, uint64_t seed) { return fnv64_buf(p, n, FNV_64_HASH_START ^ seed); }
    static uint32_t Hash32(const void* p, size_t n, uint32_t seed) { return (uint32_t)Hash64(p, n, seed); }
};
inline size_t hash_combine() { return 0; }
template <class T, class... R> size_t hash_combine(const T& t, const R&... r) { size_t s = std::hash<T>()(t); if constexpr (sizeof...(R) == 0) return s; else return (size_t)hash_128_to_64(s, hash_combine(r...)); }
}  // namespace hash
template <class T> struct hasher { size_t operator()(const T& t) const { return std::hash<T>()(t); } };
using hash::hash_combine;
}  // namespace folly
namespace std {
template <class A, class B> struct hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>& x) const { return folly::hash::hash_combine(x.first, x.second); } };
template <class... T> struct hash<std::tuple<T...>> { size_t operator()(const std::tuple<T...>& k) const { return std::apply([](const T&... t) { return folly::hash::hash_combine(t...); }, k); } };
}
