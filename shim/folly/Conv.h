// Stand-in for folly/Conv.h
#pragma once
#include <charconv>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include "folly/Range.h"
#include "folly/Likely.h"

namespace folly {
class ConversionError : public std::range_error { public: explicit ConversionError(const std::string& s) : std::range_error(s) {} };
enum class ConversionCode { SUCCESS, EMPTY_INPUT_STRING, OVERFLOW_, INVALID };

inline std::string mcDoubleToString(double v) {
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v < 0 ? "-Infinity" : "Infinity";
    char buf[64]; auto r = std::to_chars(buf, buf + sizeof(buf), v, std::chars_format::scientific);
    std::string s(buf, r.ptr), digits, out;
    size_t i = 0; bool neg = false;
    if (s[0] == '-') { neg = true; i = 1; }
    size_t e = s.find('e');
    for (size_t k = i; k < e; k++) if (s[k] != '.') digits += s[k];
    int ex = atoi(s.c_str() + e + 1);
    if (v == 0) { digits = "0"; ex = 0; }
    int n = (int)digits.size();
    if (ex >= -6 && ex < 21) {
        if (ex < 0) out = "0." + std::string(-ex - 1, '0') + digits;
        else if (n <= ex + 1) out = digits + std::string(ex + 1 - n, '0');
        else out = digits.substr(0, ex + 1) + "." + digits.substr(ex + 1);
    } else {
        out = digits.substr(0, 1); if (n > 1) out += "." + digits.substr(1);
        out += "E" + std::to_string(ex);
    }
    return neg ? "-" + out : out;
}
template <class T> struct mc_is_sp : std::is_convertible<const T&, StringPiece> {};

inline void mcAppend(std::string& o, char c) { o += c; }
template <class T> void mcAppendOne(std::string& o, const T& v) {
    if constexpr (std::is_same<T, char>::value) o += v;
    else if constexpr (std::is_same<T, bool>::value) o += v ? "1" : "0";
    else if constexpr (std::is_enum<T>::value) o += std::to_string((std::underlying_type_t<T>)v);
    else if constexpr (std::is_same<T, float>::value) o += mcDoubleToString(v);
    else if constexpr (std::is_floating_point<T>::value) o += mcDoubleToString((double)v);
    else if constexpr (std::is_integral<T>::value) o += std::to_string(v);
    else { StringPiece p(v); o.append(p.data(), p.size()); }
}
inline StringPiece mcSkipWs(StringPiece s) { while (!s.empty() && isspace((unsigned char)s.front())) s.pop_front(); return s; }
inline StringPiece mcTrim(StringPiece s) { s = mcSkipWs(s); while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }

template <class T> bool mcParse(StringPiece s, T& out) {
    s = mcTrim(s);
    if (s.empty()) return false;
    if constexpr (std::is_same<T, bool>::value) {
        std::string l; for (char c : s) l += (char)tolower((unsigned char)c);
        bool digits = std::all_of(l.begin(), l.end(), [](char c) { return c >= '0' && c <= '9'; });
        if (digits) { size_t p = l.find_first_not_of('0'); if (p == std::string::npos) { out = false; return true; } if (l.substr(p) == "1") { out = true; return true; } return false; }
        if (l == "y" || l == "yes" || l == "t" || l == "true" || l == "on") { out = true; return true; }
        if (l == "n" || l == "no" || l == "f" || l == "false" || l == "off") { out = false; return true; }
        return false;
    } else if constexpr (std::is_floating_point<T>::value) {
        std::string str = s.str(), low; for (char c : str) low += (char)tolower((unsigned char)c);
        bool neg = low[0] == '-'; std::string body = neg ? low.substr(1) : low;
        if (body == "nan") { out = std::numeric_limits<T>::quiet_NaN(); return true; }
        if (body == "inf" || body == "infinity") { out = neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity(); return true; }
        size_t off = low[0] == '+' ? 1 : 0;
        if (!(isdigit((unsigned char)body[0]) || body[0] == '.' || off)) return false;
        double d; auto r = std::from_chars(str.data() + off, str.data() + str.size(), d);
        if (r.ptr != str.data() + str.size()) return false;
        if (r.ec == std::errc::result_out_of_range) d = strtod(str.c_str(), nullptr);
        else if (r.ec != std::errc()) return false;
        out = (T)d; return true;
    } else if constexpr (std::is_integral<T>::value) {
        if (s.front() == '+') { if (std::is_unsigned<T>::value) return false; s.pop_front(); if (s.empty() || s.front() == '-') return false; }
        auto r = std::from_chars(s.data(), s.data() + s.size(), out);
        return r.ec == std::errc() && r.ptr == s.end();
    } else { out = T(s.str()); return true; }
}
template <class To, class From> std::enable_if_t<std::is_same<To, std::string>::value, To> mcTo1(const From& v) { std::string o; mcAppendOne(o, v); return o; }
template <class To, class From> std::enable_if_t<!std::is_same<To, std::string>::value && mc_is_sp<From>::value, To> mcTo1(const From& v) {
    To r{}; if (!mcParse<To>(StringPiece(v), r)) throw ConversionError("Invalid conversion: \"" + StringPiece(v).str() + "\""); return r;
}
template <class To, class From> std::enable_if_t<std::is_arithmetic<To>::value && std::is_arithmetic<From>::value, To> mcTo1(const From& v) {
    if constexpr (std::is_same<To, bool>::value) return (bool)v;
    else if constexpr (std::is_integral<To>::value && std::is_floating_point<From>::value) {
        if (!(v >= (From)std::numeric_limits<To>::min() && v < -(From)std::numeric_limits<To>::min()) && !(std::is_unsigned<To>::value)) throw ConversionError("loss of precision");
        To r = (To)v; if ((From)r != v) throw ConversionError("loss of precision"); return r;
    } else if constexpr (std::is_floating_point<To>::value && std::is_integral<From>::value) {
        To r = (To)v; if ((long double)r != (long double)v) throw ConversionError("loss of precision"); return r;
    } else if constexpr (std::is_integral<To>::value) {
        To r = (To)v; if ((From)r != v || ((r < To{}) != (v < From{}))) throw ConversionError("arithmetic overflow"); return r;
    } else return (To)v;
}
template <class To, class A> To to(const A& a) { if constexpr (std::is_same<To, A>::value) return a; else return mcTo1<To, A>(a); }
template <class To> To to(const char* b, const char* e) { return to<To>(StringPiece(b, e)); }
template <class To, class A, class B, class... R, class = std::enable_if_t<std::is_same<To, std::string>::value>> To to(const A& a, const B& b, const R&... r) { std::string o; mcAppendOne(o, a); mcAppendOne(o, b); (mcAppendOne(o, r), ...); return o; }
template <class... A> void toAppend(const A&...) = delete;

template <class T> class mcExpected {
 public:
    mcExpected(T v) : ok_(true), v_(std::move(v)) {}
    mcExpected() : ok_(false), v_() {}
    bool hasValue() const { return ok_; } bool hasError() const { return !ok_; } explicit operator bool() const { return ok_; }
    const T& value() const { if (!ok_) throw ConversionError("bad expected access"); return v_; }
    const T& operator*() const { return v_; } const T* operator->() const { return &v_; }
    template <class U> T value_or(U&& u) const { return ok_ ? v_ : T(std::forward<U>(u)); }
    ConversionCode error() const { return ConversionCode::INVALID; }
 private: bool ok_; T v_;
};
template <class To, class From> mcExpected<To> tryTo(const From& f) { try { return mcExpected<To>(to<To>(f)); } catch (const ConversionError&) { return mcExpected<To>(); } }
}  // namespace folly
