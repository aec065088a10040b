#pragma once
#include <cstdint>
#include <stdexcept>
#include <type_traits>
#include "folly/Range.h"
namespace folly {
constexpr size_t kMaxVarintLength32 = 5, kMaxVarintLength64 = 10;
inline size_t encodeVarint(uint64_t v, uint8_t* b) { uint8_t* p = b; while (v >= 128) { *p++ = 0x80 | (v & 0x7f); v >>= 7; } *p++ = (uint8_t)v; return size_t(p - b); }
inline int encodeVarintSize(uint64_t v) { int s = 1; while (v >= 128) { s++; v >>= 7; } return s; }
template <class T> uint64_t decodeVarint(Range<T*>& d) { uint64_t v = 0; int sh = 0; for (size_t i = 0; i < d.size() && sh < 64; i++, sh += 7) { uint8_t c = (uint8_t)d[i]; v |= (uint64_t)(c & 0x7f) << sh; if (!(c & 0x80)) { d.advance(i + 1); return v; } } throw std::invalid_argument("Invalid varint value"); }
inline uint64_t encodeZigZag(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
inline int64_t decodeZigZag(uint64_t v) { return (int64_t)((v >> 1) ^ (uint64_t)(-(int64_t)(v & 1))); }
}
