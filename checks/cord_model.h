// Exhaustive operation sequences on a cord against std::string. Shared by C01 and C02.
#pragma once
#include "mc.h"
#include "heap.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace cordmc {
using mc::Ctx;

template <class T> std::string raw(T v) { return std::string((const char*)&v, sizeof v); }
inline std::string pattern(size_t n, int salt) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(1 + (i * 7 + salt * 31) % 251); return s; }

template <class C> void readAll(Ctx& c, const C& cord, const std::string& m, const char* when) {
    MC_CHECK(c, cord.size() == m.size(), "size", when << ": size() " << cord.size() << ", " << m.size() << " bytes were appended");
    MC_CHECK(c, cord.empty() == m.empty(), "empty", when << ": empty() " << cord.empty() << " with " << m.size() << " bytes");
    std::string s = cord.str();
    MC_CHECK(c, s == m, "content", when << ": str() is " << mc::hex(s) << ", appended " << mc::hex(m));
    std::string pre = "pre";
    size_t n = cord.appendTo(pre);
    MC_CHECK(c, pre == "pre" + m, "content", when << ": appendTo() gives " << mc::hex(pre) << ", appended " << mc::hex(m));
    MC_CHECK(c, n == m.size(), "content", when << ": appendTo() returns " << n << " for " << m.size() << " bytes");
    // full visit
    std::string v;
    std::vector<size_t> sizes;
    bool r = cord.applyTo([&](const char* p, int32_t k) { if (k < 0) c.fail("visit", "negative block size"); v.append(p, k); sizes.push_back(k); return true; });
    MC_CHECK(c, v == m, "visit", when << ": visit delivers " << mc::hex(v) << ", appended " << mc::hex(m));
    MC_CHECK(c, r, "visit", when << ": a complete visit reports that it was stopped");
    // stop at every block
    for (size_t stop = 0; stop < sizes.size(); ++stop) {
        std::string got; size_t calls = 0;
        bool rr = cord.applyTo([&](const char* p, int32_t k) { got.append(p, k); return calls++ != stop; });
        size_t want = 0;
        for (size_t i = 0; i <= stop; ++i) want += sizes[i];
        MC_CHECK(c, calls == stop + 1, "visit-stop", when << ": visitor stopped at block " << stop << " was called " << calls << " times");
        MC_CHECK(c, got == m.substr(0, want), "visit-stop", when << ": stopped visit delivered the wrong bytes");
        MC_CHECK(c, !rr, "visit-stop", when << ": a stopped visit at block " << stop << " of " << sizes.size() << " reports completion");
    }
    c.step(5 + sizes.size());
}

// One operation. `other` builds a second cord (maybe of another block size) with given content.
template <class C> struct Other { std::function<void(C& into, const std::string& content)> append; };

template <class C>
bool applyOp(Ctx& c, C& cord, std::string& m, int op, const std::vector<size_t>& lens, const std::vector<size_t>& olens,
             const std::function<void(C&, const std::string&, int)>& appendOther, int otherKinds) {
    // returns false if op is out of range
    int k = op;
    if (k < (int)lens.size()) { std::string p = pattern(lens[k], k); MC_LOG(c, "write " << lens[k]); C& r = cord.write(p.data(), p.size()); MC_CHECK(c, &r == &cord, "chain", "write does not return the cord"); m += p; return true; }
    k -= lens.size();
    if (k == 0) { MC_LOG(c, "clear"); cord.clear(); m.clear(); return true; }
    if (k == 1) { MC_LOG(c, "append self"); C& r = (cord << cord); MC_CHECK(c, &r == &cord, "chain", "<< does not return the cord"); m += std::string(m); return true; }
    if (k == 2) { std::string s("a\0b", 3); MC_LOG(c, "string with NUL"); cord << s; m += s; return true; }
    if (k == 3) { MC_LOG(c, "c string"); cord << "xyz"; m += "xyz"; return true; }
    if (k == 4) { MC_LOG(c, "int64"); cord << (int64_t)0x8877665544332211ull; m += raw((int64_t)0x8877665544332211ull); return true; }
    if (k == 5) { MC_LOG(c, "int8,uint16"); cord << (int8_t)-3 << (uint16_t)0xABCD; m += raw((int8_t)-3) + raw((uint16_t)0xABCD); return true; }
    k -= 6;
    if (k < otherKinds * (int)olens.size()) {
        size_t n = olens[k / otherKinds];
        std::string p = pattern(n, 40 + k);
        MC_LOG(c, "append cord kind " << k % otherKinds << " length " << n);
        appendOther(cord, p, k % otherKinds);
        m += p;
        return true;
    }
    return false;
}

template <class C>
void typed(Ctx& c, C& cord, std::string& m) {
    // every fixed-width type with boundary values
    auto put = [&](auto v) { cord << v; m += raw(v); c.step(); };
    switch (c.choose(14)) {
        case 0: put(std::vector<int8_t>{0, -1, 127, -128}[c.choose(4)]); break;
        case 1: put(std::vector<uint8_t>{0, 255, 10}[c.choose(3)]); break;
        case 2: put(std::vector<int16_t>{0, -1, 32767, -32768, 0x1234}[c.choose(5)]); break;
        case 3: put(std::vector<uint16_t>{0, 65535, 0x1234}[c.choose(3)]); break;
        case 4: put(std::vector<int32_t>{0, -1, INT32_MAX, INT32_MIN, 0x12345678}[c.choose(5)]); break;
        case 5: put(std::vector<uint32_t>{0, UINT32_MAX, 0x12345678}[c.choose(3)]); break;
        case 6: put(std::vector<int64_t>{0, -1, INT64_MAX, INT64_MIN, 0x123456789abcdef0}[c.choose(5)]); break;
        case 7: put(std::vector<uint64_t>{0, UINT64_MAX, 0x123456789abcdef0}[c.choose(3)]); break;
        case 8: put((char)std::vector<char>{0, 'a', (char)0xff}[c.choose(3)]); break;
        case 9: put(c.choose(2) == 1); break;
        case 10: put(std::vector<float>{0.f, -0.f, 1.5f, 1e38f}[c.choose(4)]); break;
        case 11: put(std::vector<double>{0., -0., 1.5, 1e308, 5e-324}[c.choose(5)]); break;
        case 12: { std::string s = std::vector<std::string>{"", "x", std::string("\0\0", 2), "0123456789abcdef"}[c.choose(4)]; cord << s; m += s; c.step(); break; }
        case 13: { const char* s = std::vector<const char*>{"", "x", "0123456789abcdef"}[c.choose(3)]; cord << s; m += s; c.step(); break; }
    }
}
}  // namespace cordmc
