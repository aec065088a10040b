// Stand-in for folly/Random.h: every draw is answered by mc_rand64_hook when the harness sets it.
#pragma once
#include <cstdint>
extern uint64_t (*mc_rand64_hook)(uint64_t lo, uint64_t hiExclusive);   // hiExclusive 0: the whole 64-bit range
extern uint64_t mc_rand_default(uint64_t lo, uint64_t hi);
namespace folly {
class Random {
    static uint64_t draw(uint64_t lo, uint64_t hi) { return mc_rand64_hook ? mc_rand64_hook(lo, hi) : mc_rand_default(lo, hi); }
 public:
    static uint32_t rand32() { return (uint32_t)draw(0, 1ULL << 32); }
    static uint32_t rand32(uint32_t max) { return max == 0 ? 0 : (uint32_t)draw(0, max); }
    static uint32_t rand32(uint32_t min, uint32_t max) { return max == min ? 0 : (uint32_t)(rand32(max - min) + min); }
    static uint64_t rand64() { return draw(0, 0); }
    static uint64_t rand64(uint64_t max) { return max == 0 ? 0 : draw(0, max); }
    static uint64_t rand64(uint64_t min, uint64_t max) { return max == min ? 0 : rand64(max - min) + min; }
    static bool oneIn(uint32_t n) { return n && rand32(n) == 0; }
    static double randDouble01() { return (double)(draw(0, 1ULL << 53)) * (1.0 / 9007199254740992.0); }
    static double randDouble(double a, double b) { return a + (b - a) * randDouble01(); }
};
}
