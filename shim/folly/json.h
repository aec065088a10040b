// Stand-in for folly/json.h
#pragma once
#include "folly/dynamic.h"
#include "folly/Unicode.h"
namespace folly {
namespace json {
struct serialization_opts { bool pretty_formatting = false, sort_keys = false, allow_non_string_keys = false, convert_int_keys = false, allow_nan_inf = false, validate_utf8 = false, encode_non_ascii = false, skip_invalid_utf8 = false, allow_trailing_comma = false, double_fallback = false, parse_numbers_as_strings = false, javascript_safe = false; };
struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; };
inline void mcEsc(const std::string& s, std::string& o) {
    o += '"';
    for (unsigned char c : s) switch (c) {
        case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
        default: if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c;
    }
    o += '"';
}
inline void mcPrint(const dynamic& d, std::string& o, const serialization_opts& p, int ind) {
    auto nl = [&](int n) { if (p.pretty_formatting) { o += '\n'; o.append((size_t)n * 2, ' '); } };
    switch (d.type()) {
        case dynamic::NULLT: o += "null"; break; case dynamic::BOOL: o += d.getBool() ? "true" : "false"; break; case dynamic::INT64: o += std::to_string(d.getInt()); break;
        case dynamic::DOUBLE: if (!p.allow_nan_inf && !std::isfinite(d.getDouble())) throw std::runtime_error("folly::toJson: JSON object value was a NaN or INF"); o += to<std::string>(d.getDouble()); break;
        case dynamic::STRING: mcEsc(d.getString(), o); break;
        case dynamic::ARRAY: { if (d.empty()) { o += "[]"; break; } o += '['; bool f = true; for (auto& e : d) { if (!f) o += ','; f = false; nl(ind + 1); mcPrint(e, o, p, ind + 1); } nl(ind); o += ']'; break; }
        case dynamic::OBJECT: { if (d.empty()) { o += "{}"; break; } o += '{'; bool f = true; for (const auto& e : d.items()) { if (!f) o += ','; f = false; nl(ind + 1); mcEsc(e.first.getString(), o); o += p.pretty_formatting ? ": " : ":"; mcPrint(e.second, o, p, ind + 1); } nl(ind); o += '}'; break; }
    }
}
inline std::string serialize(const dynamic& d, const serialization_opts& p) { std::string o; mcPrint(d, o, p, 0); return o; }
struct McParser {
    StringPiece s; size_t i = 0; int depth = 0;
    [[noreturn]] void err(const std::string& m) { throw parse_error("json parse error: " + m); }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
    bool lit(const char* w) { size_t n = strlen(w); if (s.size() - i >= n && memcmp(s.data() + i, w, n) == 0) { i += n; return true; } return false; }
    unsigned hex4() { if (s.size() - i < 4) err("expected 4 hex digits"); unsigned v = 0; for (int k = 0; k < 4; k++) { char c = s[i++]; v <<= 4; if (c >= '0' && c <= '9') v |= (unsigned)(c - '0'); else if (c >= 'a' && c <= 'f') v |= (unsigned)(c - 'a' + 10); else if (c >= 'A' && c <= 'F') v |= (unsigned)(c - 'A' + 10); else err("invalid hex digit"); } return v; }
    std::string str() {
        std::string o; i++;
        for (;;) {
            if (i >= s.size()) err("expected json string to end with a \"");
            char c = s[i++];
            if (c == '"') return o;
            if (c == '\\') { if (i >= s.size()) err("unterminated escape"); c = s[i++]; switch (c) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { unsigned v = hex4(); if (v >= 0xD800 && v < 0xDC00) { if (!lit("\\u")) err("expected another unicode escape"); unsigned w = hex4(); if (w < 0xDC00 || w > 0xDFFF) err("second character in surrogate pair is invalid"); v = 0x10000 + ((v & 0x3ff) << 10) + (w & 0x3ff); } o += codePointToUtf8(v); break; }
                default: err("unknown escape"); } }
            else { if ((unsigned char)c < 0x20) err("control character in string"); o += c; }
        }
    }
    dynamic num() {
        size_t b = i; if (i < s.size() && s[i] == '-') i++;
        if (lit("Infinity")) return dynamic(s[b] == '-' ? -INFINITY : INFINITY);
        size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        if (i == d) err("expected digits"); bool fl = false;
        if (i < s.size() && s[i] == '.') { fl = true; i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { fl = true; i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t e = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (i == e) err("expected exponent"); }
        std::string t = s.subpiece(b, i - b).str();
        if (fl) return dynamic(to<double>(t));
        try { return dynamic(to<int64_t>(t)); } catch (const ConversionError&) { err("big integer"); }
    }
    dynamic val() {
        if (++depth > 100) err("recursion limit exceeded");
        ws(); if (i >= s.size()) err("expected json value"); dynamic r;
        char c = s[i];
        if (c == '"') r = dynamic(str());
        else if (c == '[') { i++; r = dynamic::array(); ws(); if (i < s.size() && s[i] == ']') i++; else for (;;) { r.push_back(val()); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } if (i < s.size() && s[i] == ']') { i++; break; } err("expected ']'"); } }
        else if (c == '{') { i++; r = dynamic::object(); ws(); if (i < s.size() && s[i] == '}') i++; else for (;;) { ws(); if (i >= s.size() || s[i] != '"') err("expected string for object key name"); std::string k = str(); ws(); if (i >= s.size() || s[i] != ':') err("expected ':'"); i++; r.insert(k, val()); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } if (i < s.size() && s[i] == '}') { i++; break; } err("expected '}'"); } }
        else if (c == '-' || isdigit((unsigned char)c)) r = num();
        else if (lit("true")) r = dynamic(true); else if (lit("false")) r = dynamic(false); else if (lit("null")) r = dynamic(nullptr); else if (lit("NaN")) r = dynamic(NAN); else if (lit("Infinity")) r = dynamic(INFINITY);
        else err("expected json value");
        depth--; return r;
    }
};
}  // namespace json
inline dynamic parseJson(StringPiece s) { json::McParser p; p.s = s; dynamic d = p.val(); p.ws(); if (p.i != s.size()) p.err("parsing didn't consume all input"); return d; }
inline dynamic parseJson(StringPiece s, const json::serialization_opts&) { return parseJson(s); }
inline std::string toJson(const dynamic& d) { return json::serialize(d, json::serialization_opts()); }
inline std::string toPrettyJson(const dynamic& d) { json::serialization_opts o; o.pretty_formatting = true; return json::serialize(d, o); }
inline std::ostream& operator<<(std::ostream& os, const dynamic& d) { return os << toJson(d); }
}
