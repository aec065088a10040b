// C19: byte-sequence hashing, against an independent byte-wise implementation of 64-bit MurmurHash2.
#include "mc.h"
#include "common/base/MurmurHash2.h"
#include <memory>
#include <cstring>
#include <string_view>
using mc::Ctx;
using nebula::MurmurHash2;

static uint64_t reference(const unsigned char* p, size_t n) {
    const uint64_t m = 0xc6a4a7935bd1e995ULL;
    uint64_t h = 0xc70f6907ULL ^ (n * m);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t k = 0;
        for (int b = 0; b < 8; ++b) k |= (uint64_t)p[i + b] << (8 * b);
        k *= m; k ^= k >> 47; k *= m;
        h ^= k; h *= m;
    }
    if (i < n) {
        uint64_t k = 0;
        for (int b = 0; i + b < n; ++b) k |= (uint64_t)p[i + b] << (8 * b);
        h ^= k; h *= m;
    }
    h ^= h >> 47; h *= m; h ^= h >> 47;
    return h;
}

// The bytes lie at the very end of an allocation of their own, at the given alignment.
struct Placed {
    std::unique_ptr<unsigned char[]> buf; unsigned char* p;
    Placed(const std::string& s, int align) : buf(new unsigned char[align + s.size()]), p(buf.get() + align) { memcpy(p, s.data(), s.size()); }
};

static void checkBytes(Ctx& c, const std::string& s, int align) {
    uint64_t want = reference((const unsigned char*)s.data(), s.size());
    MurmurHash2 h;
    Placed b(s, align);
    auto req = [&](uint64_t got, const char* form) {
        MC_CHECK(c, got == want, "value", form << " of " << s.size() << " bytes " << mc::hex(s.substr(0, 40)) << " at alignment " << align << " gives " << got << ", MurmurHash2 gives " << want);
    };
    req(h((const unsigned char*)b.p, s.size()), "hash(unsigned char*, size)");
    req(h((const signed char*)b.p, s.size()), "hash(signed char*, size)");
    req(h((const char*)b.p, s.size()), "hash(char*, size)");
    req(h(s), "hash(std::string)");
    req(std::hash<std::string>()(s), "std::hash<std::string>");
    { const MurmurHash2 ch{}; req(ch(std::string(s)), "hash(temporary string)"); }
    if (s.find('\0') == std::string::npos) {
        Placed z(s + '\0', align);
        const char* q = (const char*)z.p; req(h(q), "hash(char*)");
    }
    c.step(8);
}

template <class T> static void ints(Ctx& c, T v, const char* ty) {
    MurmurHash2 h;
    size_t got = h(v);
    MC_CHECK(c, got == (size_t)v, "integer", "hash of the " << ty << " " << (long long)v << " is " << got);
    const T cv = v; MC_CHECK(c, h(cv) == (size_t)v, "integer", "hash of the const " << ty << " " << (long long)v << " is " << h(cv));
    c.step(2);
}
static void allInts(Ctx& c, uint64_t v) {
    ints<int8_t>(c, v, "int8"); ints<uint8_t>(c, v, "uint8"); ints<int16_t>(c, v, "int16"); ints<uint16_t>(c, v, "uint16");
    ints<int32_t>(c, v, "int32"); ints<uint32_t>(c, v, "uint32"); ints<int64_t>(c, v, "int64"); ints<uint64_t>(c, v, "uint64");
    ints<bool>(c, v & 1, "bool"); ints<char>(c, v, "char"); ints<long long>(c, v, "long long");
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"short", [](Ctx& c) {   // every string of up to 2 (3) bytes
        int n = c.choose(c.thorough() ? 4 : 3);
        std::string s;
        if (n) s += (char)c.choose(256);
        for (int i = 1; i < n - 1; ++i) s += (char)c.choose(256);
        int inner = n >= 2 ? 256 : 1;
        for (int v = 0; v < inner; ++v) { std::string t = s; if (n >= 2) t += (char)v; for (int a = 0; a < 2; ++a) checkBytes(c, t, a * 5); }
        c.state(s); c.outcome(std::to_string(n));
    }, false, "every byte sequence of 0..2 (0..3) bytes"});
    sc.push_back({"lengths", [](Ctx& c) {   // every length, alignment, background and one differing byte
        int n = c.choose(c.thorough() ? 140 : 74), a = c.choose(8);
        int bg = c.choose(4);
        std::string s(n, 0);
        for (int i = 0; i < n; ++i) s[i] = bg == 0 ? 0 : bg == 1 ? (char)0xff : bg == 2 ? (char)(i * 37 + 1) : (char)0x80;
        checkBytes(c, s, a);
        for (int i = 0; i < n; ++i) for (int v : {0, 1, 0x7f, 0x80, 0xff}) { std::string t = s; t[i] = (char)v; checkBytes(c, t, a); }
        c.state(std::to_string(n * 100 + a * 10 + bg)); c.outcome(std::to_string(n % 8));
    }, false, "lengths 0..73 (139) x 8 alignments x 4 backgrounds x every position x 5 byte values"});
    sc.push_back({"large", [](Ctx& c) {
        size_t n = std::vector<size_t>{255, 256, 257, 1023, 4096, 65535, 65536, 65543, 1 << 20}[c.choose(9)] ;
        std::string s(n, 0);
        for (size_t i = 0; i < n; ++i) s[i] = (char)(i * 131 + (i >> 8));
        checkBytes(c, s, c.choose(8)); c.state(std::to_string(n)); c.outcome("large");
    }, false, "9 lengths up to 1 MiB x 8 alignments"});
    sc.push_back({"literals", [](Ctx& c) {
        MurmurHash2 h;
        auto eq = [&](size_t got, const std::string& s, const char* f) { MC_CHECK(c, got == reference((const unsigned char*)s.data(), s.size()), "literal", f << " of a literal of " << s.size() << " characters gives " << got); c.step(); };
        if (c.flip()) {
            eq(h(""), "", "hash"); eq(h("a"), "a", "hash"); eq(h("abcdefg"), "abcdefg", "hash"); eq(h("abcdefgh"), "abcdefgh", "hash"); eq(h("abcdefghi"), "abcdefghi", "hash");
            eq(h("nul\0inside"), std::string("nul\0inside", 10), "hash"); eq(h("\xff\x80"), "\xff\x80", "hash");
            eq(h("0123456789abcdef"), "0123456789abcdef", "hash");
        } else {
            // non-character pointers and smart pointers hash to their address, thread ids as std::hash does
            int x[3]; for (auto& e : x) MC_CHECK(c, h((const int*)&e) == (size_t)&e, "pointer", "hash of a pointer is not its address");
            auto sp = std::make_shared<int>(1); auto up = std::make_unique<std::string>("x");
            MC_CHECK(c, h(sp) == (size_t)sp.get() && h(up) == (size_t)up.get(), "pointer", "hash of a smart pointer is not its address");
            MC_CHECK(c, h(std::this_thread::get_id()) == std::hash<std::thread::id>()(std::this_thread::get_id()), "thread-id", "hash of a thread id differs from std::hash");
            c.step(6);
        }
        c.state("l"); c.outcome("l");
    }, false, "literals and the other key types"});
    sc.push_back({"integers", [](Ctx& c) {
        int k = c.choose(66);
        if (k == 64) { for (int v = -70000; v <= 70000; ++v) allInts(c, (uint64_t)(int64_t)v); }
        else if (k == 65) { for (uint64_t v : {0xc70f6907UL, 0xdeadbeefUL, 0x123456789abcdefUL}) allInts(c, v); }
        else for (int64_t d = -3; d <= 3; ++d) { allInts(c, (1ULL << k) + d); allInts(c, ~((1ULL << k) + d)); }
        c.state(std::to_string(k)); c.outcome("i");
    }, false, "all 16-bit values and the neighbourhood of every power of two for 11 integer types"});
    return mc::run(argc, argv, "C19", sc, {"little-endian machine, as the only supported ones are"});
}
