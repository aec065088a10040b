// Stand-in for folly/String.h
#pragma once
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include "folly/Range.h"
#include "folly/Likely.h"
#include "folly/Conv.h"
namespace folly {
__attribute__((format(printf, 1, 0))) inline std::string stringVPrintf(const char* f, va_list ap) {
    va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
    if (n < 0) throw std::runtime_error("Invalid format string");
    std::string s((size_t)n + 1, 0); vsnprintf(&s[0], s.size(), f, ap); s.resize((size_t)n); return s;
}
__attribute__((format(printf, 1, 2))) inline std::string stringPrintf(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = stringVPrintf(f, ap); va_end(ap); return s; }
__attribute__((format(printf, 2, 3))) inline std::string& stringAppendf(std::string* o, const char* f, ...) { va_list ap; va_start(ap, f); *o += stringVPrintf(f, ap); va_end(ap); return *o; }
template <class It> std::string mcJoin(const std::string& d, It b, It e) { std::string o; bool first = true; for (; b != e; ++b) { if (!first) o += d; first = false; mcAppendOne(o, *b); } return o; }
inline std::string mcDelim(char c) { return std::string(1, c); }
inline std::string mcDelim(StringPiece s) { return s.str(); }
template <class D, class C> std::string join(const D& d, const C& c) { return mcJoin(mcDelim(d), c.begin(), c.end()); }
template <class D, class It> std::string join(const D& d, It b, It e) { return mcJoin(mcDelim(d), b, e); }
template <class D, class T> std::string join(const D& d, const std::initializer_list<T>& c) { return mcJoin(mcDelim(d), c.begin(), c.end()); }
template <class Out, class D, class C> void mcSplit(const D& delim, StringPiece s, C& out, bool ignoreEmpty) {
    std::string d = mcDelim(delim);
    auto put = [&](StringPiece p) { if (ignoreEmpty && p.empty()) return; if constexpr (std::is_same<Out, StringPiece>::value) out.emplace_back(p); else if constexpr (std::is_same<Out, std::string>::value) out.emplace_back(p.str()); else out.emplace_back(to<Out>(p)); };
    if (s.empty() || d.empty()) { if (!ignoreEmpty || !s.empty()) put(s); return; }
    size_t from = 0;
    for (;;) { size_t p = s.find(std::string_view(d), from); if (p == StringPiece::npos) { put(s.subpiece(from)); break; } put(s.subpiece(from, p - from)); from = p + d.size(); }
}
template <class D, class Str, class C> void split(const D& delim, const Str& s, std::vector<C>& out, bool ignoreEmpty = false) { mcSplit<C>(delim, StringPiece(s), out, ignoreEmpty); }
template <class OutStr, class D, class Str, class C> std::enable_if_t<!std::is_same<OutStr, void>::value && (std::is_same<OutStr, C>::value)> split(const D& delim, const Str& s, std::vector<C>& out, bool ignoreEmpty = false) { mcSplit<C>(delim, StringPiece(s), out, ignoreEmpty); }
template <class D, class Str, class A, class B> std::enable_if_t<!std::is_same<A, void>::value, bool> split(const D& delim, const Str& s, A& a, B& b) {
    std::vector<StringPiece> v; mcSplit<StringPiece>(delim, StringPiece(s), v, false); if (v.size() != 2) return false; a = to<A>(v[0]); b = to<B>(v[1]); return true; }
inline StringPiece ltrimWhitespace(StringPiece s) { while (!s.empty() && (s.front() == ' ' || s.front() == '\n' || s.front() == '\r' || s.front() == '\t')) s.pop_front(); return s; }
inline StringPiece rtrimWhitespace(StringPiece s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\n' || s.back() == '\r' || s.back() == '\t')) s.pop_back(); return s; }
inline StringPiece trimWhitespace(StringPiece s) { return ltrimWhitespace(rtrimWhitespace(s)); }
inline StringPiece skipWhitespace(StringPiece s) { return ltrimWhitespace(s); }
inline void toLowerAscii(char* p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] >= 'A' && p[i] <= 'Z') p[i] += 32; }
inline void toLowerAscii(std::string& s) { toLowerAscii(&s[0], s.size()); }
template <class OutS> bool hexlify(StringPiece in, OutS& out, bool append = false) { if (!append) out.clear(); static const char* h = "0123456789abcdef"; for (unsigned char c : in) { out += h[c >> 4]; out += h[c & 15]; } return true; }
inline std::string hexlify(StringPiece in) { std::string o; hexlify(in, o); return o; }
inline std::string backslashify(StringPiece s, bool hex = false) { return s.str(); }
inline std::string errnoStr(int e) { return strerror(e); }
}  // namespace folly
