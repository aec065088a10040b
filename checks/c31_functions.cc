// C31: every built-in function, every number of arguments, all argument combinations of an alphabet.
#include "common/base/Base.h"
#include "common/function/FunctionManager.h"
#include "common/time/WallClock.h"
#include "common/time/TimezoneInfo.h"
#include "mc.h"
#include "vals.h"
#include "valrel.h"
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr; using vals::quote; using vals::VT;

static int64_t g_ms = 1600000000123LL;   // the virtual clock moves at every reading
extern "C" time_t time(time_t* p) noexcept { time_t t = (g_ms += 86400001) / 1000; if (p) *p = t; return t; }
namespace nebula { namespace time {
int64_t WallClock::fastNowInSec() { return (g_ms += 1001) / 1000; }
int64_t WallClock::fastNowInMilliSec() { return g_ms += 1001; }
int64_t WallClock::fastNowInMicroSec() { return (g_ms += 1001) * 1000; }
int64_t WallClock::slowNowInSec() { return (g_ms += 1001) / 1000; }
int64_t WallClock::slowNowInMilliSec() { return g_ms += 1001; }
int64_t WallClock::slowNowInMicroSec() { return (g_ms += 1001) * 1000; }
} }
struct Fn { const char* name; size_t lo, hi; bool pure; };
static const size_t ANY = INT64_MAX;
static const std::vector<Fn> FNS = {
    {"abs", 1, 1, true}, {"bit_and", 2, 2, true}, {"bit_or", 2, 2, true}, {"bit_xor", 2, 2, true}, {"floor", 1, 1, true}, {"ceil", 1, 1, true}, {"round", 1, 1, true}, {"sqrt", 1, 1, true}, {"cbrt", 1, 1, true}, {"hypot", 2, 2, true}, {"pow", 2, 2, true}, {"e", 0, 0, true},
    {"exp", 1, 1, true}, {"exp2", 1, 1, true}, {"log", 1, 1, true}, {"log2", 1, 1, true}, {"log10", 1, 1, true}, {"pi", 0, 0, true}, {"radians", 1, 1, true}, {"sin", 1, 1, true}, {"asin", 1, 1, true}, {"cos", 1, 1, true}, {"acos", 1, 1, true}, {"tan", 1, 1, true}, {"atan", 1, 1, true}, {"sign", 1, 1, true},
    {"rand", 0, 0, false}, {"rand32", 0, 2, false}, {"rand64", 0, 2, false}, {"now", 0, 0, false}, {"strcasecmp", 2, 2, true}, {"lower", 1, 1, true}, {"tolower", 1, 1, true}, {"upper", 1, 1, true}, {"toupper", 1, 1, true}, {"length", 1, 1, true}, {"trim", 1, 1, true}, {"ltrim", 1, 1, true}, {"rtrim", 1, 1, true}, {"left", 2, 2, true}, {"right", 2, 2, true},
    {"replace", 3, 3, true}, {"reverse", 1, 1, true}, {"split", 2, 2, true}, {"tostring", 1, 1, true}, {"toboolean", 1, 1, true}, {"tofloat", 1, 1, true}, {"tointeger", 1, 1, true}, {"lpad", 3, 3, true}, {"rpad", 3, 3, true}, {"substr", 2, 3, true}, {"substring", 2, 3, true}, {"hash", 1, 1, true}, {"udf_is_in", 2, ANY, true}, {"near", 2, 2, true},
    {"cos_similarity", 2, ANY, true}, {"size", 1, 1, true}, {"date", 0, 1, false}, {"time", 0, 1, false}, {"datetime", 0, 1, false}, {"timestamp", 0, 1, false}, {"range", 2, 3, true}, {"id", 1, 1, true}, {"tags", 1, 1, true}, {"labels", 1, 1, true}, {"properties", 1, 1, true}, {"type", 1, 1, true}, {"typeid", 1, 1, true}, {"src", 1, 1, true}, {"dst", 1, 1, true}, {"rank", 1, 1, true},
    {"startnode", 1, 1, true}, {"endnode", 1, 1, true}, {"head", 1, 1, true}, {"last", 1, 1, true}, {"coalesce", 1, 1, true}, {"keys", 1, 1, true}, {"nodes", 1, 1, true}, {"tail", 1, 1, true}, {"relationships", 1, 1, true}, {"hassameedgeinpath", 1, 1, true}, {"hassamevertexinpath", 1, 1, true}, {"reversepath", 1, 1, true}, {"datasetrowcol", 3, 3, true}};

// ---- the documented result, where it is documented: its text, or "" when only the general rules apply
typedef std::vector<Value> Args;
static bool num(const Value& v) { return v.isInt() || v.isFloat(); }
static double dbl(const Value& v) { return v.isInt() ? (double)v.getInt() : v.getFloat(); }
static std::string F(double d) { return vals::reprFloat(d); }
static std::string I(int64_t x) { return "i" + std::to_string(x); }
static std::string B(bool b) { return b ? "b1" : "b0"; }
static std::string L(const std::vector<std::string>& v) { return "[" + vals::join(v, false) + "]"; }
static const std::string NUL = "n0", BADD = "n2", BADT = "n3", OVER = "n4";
static std::string low(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static std::string up(std::string s) { for (auto& ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32; return s; }
static bool sp(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }
static std::string pad(const std::string& s, int64_t n, const std::string& x, bool left) {
    if (n < 0) return ""; if ((uint64_t)n <= s.size()) return s.substr(0, n); if (x.empty()) return s;
    std::string p; while (p.size() < (size_t)n - s.size()) p += x[p.size() % x.size()]; return left ? p + s : s + p;
}
static std::string want(const std::string& f, const Args& a) {
    const size_t n = a.size(); const Value* x = n ? &a[0] : nullptr; const VT t = n ? x->type() : VT::__EMPTY__;
    typedef double (*M)(double); static const std::map<std::string, M> MATH = {{"floor", std::floor}, {"ceil", std::ceil}, {"round", std::round}, {"cbrt", std::cbrt}, {"exp", std::exp}, {"exp2", std::exp2}, {"sin", std::sin}, {"asin", std::asin}, {"cos", std::cos}, {"acos", std::acos}, {"tan", std::tan}, {"atan", std::atan}, {"sqrt", std::sqrt}, {"log", std::log}, {"log2", std::log2}, {"log10", std::log10}};
    if (f == "e") return F(2.718281828459045); if (f == "pi") return F(3.141592653589793); if (f == "near") return "''";
    if (f == "rand" || f == "rand32" || f == "rand64" || f == "now" || f == "date" || f == "time" || f == "datetime" || f == "timestamp" || f == "hash") return "";
    auto m = MATH.find(f);
    if (m != MATH.end() || f == "abs" || f == "sign" || f == "radians") {
        if (t == VT::NULLVALUE) return NUL; if (!num(*x)) return BADT; double d = dbl(*x);
        if (f == "abs") return t == VT::FLOAT ? F(std::fabs(d)) : x->getInt() == INT64_MIN ? OVER : I(x->getInt() < 0 ? -x->getInt() : x->getInt());
        if (f == "sign") return I(d > 0 ? 1 : d < 0 ? -1 : 0); if (f == "radians") return F(d * 3.141592653589793 / 180);
        if (f == "sqrt" && d < 0) return NUL; if (f.substr(0, 3) == "log" && std::fabs(d) <= 1e-8) return NUL;
        return F(m->second(d));
    }
    if (f == "hypot" || f == "pow") {
        if (!num(a[0]) || !num(a[1])) return BADT; double p = dbl(a[0]), q = dbl(a[1]); if (f == "hypot") return F(std::hypot(p, q));
        double r = std::pow(p, q); if (!a[0].isInt() || !a[1].isInt()) return F(r); return r >= -9223372036854775808.0 && r < 9223372036854775808.0 ? I((int64_t)r) : OVER;
    }
    if (f.substr(0, 4) == "bit_") { if (!a[0].isInt() || !a[1].isInt()) return ""; int64_t p = a[0].getInt(), q = a[1].getInt(); return I(f == "bit_and" ? p & q : f == "bit_or" ? p | q : p ^ q); }
    if (f == "lower" || f == "tolower" || f == "upper" || f == "toupper" || f == "trim" || f == "ltrim" || f == "rtrim") {
        if (t == VT::NULLVALUE) return NUL; if (t != VT::STRING) return BADT; std::string s = x->getStr(); if (f.find("lower") != f.npos) return quote(low(s)); if (f.find("upper") != f.npos) return quote(up(s));
        if (f != "rtrim") { size_t i = 0; while (i < s.size() && sp(s[i])) ++i; s = s.substr(i); } if (f != "ltrim") while (!s.empty() && sp(s.back())) s.pop_back(); return quote(s);
    }
    if (f == "length") { if (t == VT::NULLVALUE) return NUL; if (t == VT::STRING) return I(x->getStr().size()); if (t == VT::PATH) return I(x->getPath().steps.size()); return BADT; }
    if (f == "left" || f == "right") {
        if (t == VT::NULLVALUE) return NUL; if (t != VT::STRING || !a[1].isInt() || a[1].getInt() < 0) return BADT; const std::string& s = x->getStr(); size_t k = std::min<uint64_t>(a[1].getInt(), s.size());
        return quote(f == "left" ? s.substr(0, k) : s.substr(s.size() - k));
    }
    if (f == "replace") {
        for (auto& v : a) if (v.isNull()) return NUL; for (auto& v : a) if (!v.isStr()) return BADT; const std::string &s = a[0].getStr(), &o = a[1].getStr(); if (o.empty()) return quote(s); std::string r;
        for (size_t i = 0; i < s.size();) if (s.compare(i, o.size(), o) == 0) { r += a[2].getStr(); i += o.size(); } else r += s[i++]; return quote(r);
    }
    if (f == "reverse") {
        if (t == VT::NULLVALUE) return NUL; if (t == VT::STRING) { auto s = x->getStr(); return quote(std::string(s.rbegin(), s.rend())); } if (t != VT::LIST) return BADT;
        std::vector<std::string> r; auto& v = x->getList().values; for (size_t i = v.size(); i-- > 0;) r.push_back(repr(v[i])); return L(r);
    }
    if (f == "split") {
        if (t == VT::NULLVALUE) return NUL; if (t != VT::STRING) return BADT; if (a[1].isNull()) return NUL; if (!a[1].isStr()) return BADT; const std::string &s = x->getStr(), &d = a[1].getStr(); std::vector<std::string> r; std::string cur;
        for (size_t i = 0; i < s.size();) if (!d.empty() && s.compare(i, d.size(), d) == 0) { r.push_back(quote(cur)); cur.clear(); i += d.size(); } else cur += s[i++]; r.push_back(quote(cur)); return L(r);
    }
    if (f == "tostring") {
        if (t == VT::NULLVALUE) return NUL; if (t == VT::INT) return quote(std::to_string(x->getInt())); if (t == VT::BOOL) return quote(x->getBool() ? "true" : "false"); if (t == VT::STRING) return repr(*x);
        if (t == VT::DATE) return quote(x->getDate().toString()); if (t == VT::TIME) return quote(x->getTime().toString()); if (t == VT::DATETIME) return quote(x->getDateTime().toString()); return t == VT::FLOAT ? "" : BADT;
    }
    if (f == "toboolean") return repr(Value(*x).toBool()); if (f == "tofloat") return repr(Value(*x).toFloat()); if (f == "tointeger") return repr(Value(*x).toInt());
    if (f == "lpad" || f == "rpad") { if (!a[0].isStr() || !a[1].isInt() || !a[2].isStr()) return BADT; return quote(pad(a[0].getStr(), a[1].getInt(), a[2].getStr(), f == "lpad")); }
    if (f == "substr" || f == "substring") {
        if (t == VT::NULLVALUE) return NUL; if (t != VT::STRING || !a[1].isInt() || (n == 3 && !a[2].isInt())) return BADT; int64_t st = a[1].getInt(), len = n == 3 ? a[2].getInt() : INT64_MAX; if (st < 0 || len < 0) return BADD;
        std::string r; const std::string& s = x->getStr(); for (uint64_t i = st; i < s.size() && (int64_t)r.size() < len; ++i) r += s[i]; return quote(r);
    }
    if (f == "udf_is_in") { for (size_t i = 1; i < n; ++i) if (valrel::eq(a[0], a[i])) return "b1"; return "b0"; }
    if (f == "cos_similarity") {
        if (n % 2) return F(-2); double xy = 0, xx = 0, yy = 0; for (auto& v : a) if (!num(v)) return BADT; for (auto& v : a) if (std::fabs(dbl(v)) > 1e9 || !std::isfinite(dbl(v))) return ""; for (size_t i = 0; i < n / 2; ++i) { double p = dbl(a[i]), q = dbl(a[i + n / 2]); xy += p * q; xx += p * p; yy += q * q; }
        if (std::fabs(xx) <= 1e-8 || std::fabs(yy) <= 1e-8) return F(-2); return F(xy / (std::sqrt(xx) * std::sqrt(yy)));
    }
    if (f == "size") { switch (t) { case VT::NULLVALUE: return NUL; case VT::__EMPTY__: return "e"; case VT::STRING: return I(x->getStr().size()); case VT::LIST: return I(x->getList().values.size()); case VT::MAP: return I(x->getMap().kvs.size()); case VT::SET: return I(x->getSet().values.size()); case VT::DATASET: return I(x->getDataSet().rows.size()); default: return BADT; } }
    if (f == "range") {
        if (!a[0].isInt() || !a[1].isInt() || (n == 3 && !a[2].isInt())) return BADT; __int128 i = a[0].getInt(), e = a[1].getInt(), s = n == 3 ? a[2].getInt() : 1; if (s == 0) return BADD;
        std::vector<std::string> r; for (; s > 0 ? i <= e : i >= e; i += s) r.push_back(I((int64_t)i)); return L(r);
    }
    if (f == "datasetrowcol") {
        if (t != VT::DATASET || !a[1].isInt() || !(a[2].isInt() || a[2].isStr())) return BADT; auto& d = x->getDataSet(); int64_t row = a[1].getInt(), col = -1; if (a[2].isInt()) col = a[2].getInt(); else for (size_t i = d.colNames.size(); i-- > 0;) if (d.colNames[i] == a[2].getStr()) col = i;
        if (row < 0 || col < 0 || row >= (int64_t)d.rows.size() || col >= (int64_t)d.colNames.size()) return BADD; return repr(d.rows[row].values[col]);
    }
    if (f == "hassameedgeinpath" || f == "hassamevertexinpath") {
        if (t != VT::PATH) return BADT; auto& p = x->getPath(); std::set<std::string> seen; bool dup = false; std::string at = repr(p.src.vid); if (f == "hassamevertexinpath") seen.insert(at);
        for (auto& s : p.steps) { std::string to = repr(s.dst.vid); if (f == "hassamevertexinpath") dup |= !seen.insert(to).second; else dup |= !seen.insert((s.type > 0 ? at + ">" + to : to + ">" + at) + "#" + std::to_string(std::abs(s.type)) + "@" + std::to_string(s.ranking)).second; at = to; } return B(dup);
    }
    if (f == "reversepath") { if (t != VT::PATH) return BADT; const Path& p = x->getPath(); std::string r = "P("; size_t k = p.steps.size(); r += repr(k ? p.steps[k - 1].dst : p.src); for (size_t i = k; i-- > 0;) { Step s = p.steps[i]; s.type = -s.type; s.dst = i ? p.steps[i - 1].dst : p.src; r += ";" + repr(s); } return r + ")"; }
    // look-ups in graph elements and containers: null gives null, anything else unsuitable a bad type
    if (t == VT::NULLVALUE) return NUL;
    if (t == VT::VERTEX) {
        auto& v = x->getVertex(); if (f == "id") return repr(v.vid); if (f == "tags" || f == "labels") { std::vector<std::string> r; for (auto& g : v.tags) r.push_back(quote(g.name)); return L(r); }
        std::map<std::string, std::string> p; for (auto& g : v.tags) for (auto& e : g.props) p.emplace(e.first, repr(e.second));
        if (f == "properties") { std::vector<std::string> r; for (auto& e : p) r.push_back(quote(e.first) + ":" + e.second); return "{" + vals::join(r, true) + "}"; }
        if (f == "keys") { std::vector<std::string> r; for (auto& e : p) r.push_back(quote(e.first)); return L(r); }
    }
    auto keys = [&](const std::unordered_map<std::string, Value>& m) { std::set<std::string> k; for (auto& e : m) k.insert(e.first); std::vector<std::string> r; for (auto& e : k) r.push_back(quote(e)); return L(r); };
    if (t == VT::EDGE) {
        auto& e = x->getEdge(); bool fw = e.type > 0; if (f == "properties") return vals::reprProps(e.props); if (f == "keys") return keys(e.props); if (f == "type") return quote(e.name); if (f == "typeid") return I(e.type); if (f == "rank") return I(e.ranking);
        if (f == "src") return repr(fw ? e.src : e.dst); if (f == "dst") return repr(fw ? e.dst : e.src); if (f == "startnode") return "V(" + repr(e.src) + ")"; if (f == "endnode") return "V(" + repr(e.dst) + ")";
    }
    if (t == VT::MAP) { if (f == "properties") return repr(*x); if (f == "keys") return keys(x->getMap().kvs); }
    if (t == VT::PATH) {
        auto& p = x->getPath(); if (f == "startnode") return repr(p.src); if (f == "endnode") return repr(p.steps.empty() ? p.src : p.steps.back().dst); std::vector<std::string> r;
        if (f == "nodes") { r.push_back(repr(p.src)); for (auto& s : p.steps) r.push_back(repr(s.dst)); return L(r); }
        if (f == "relationships") { std::string at = repr(p.src.vid); for (auto& s : p.steps) { std::string to = repr(s.dst.vid); r.push_back("E(" + at + "," + to + "," + std::to_string(s.type) + "," + quote(s.name) + "," + std::to_string(s.ranking) + "," + vals::reprProps(s.props) + ")"); at = to; } return L(r); }
    }
    if (t == VT::LIST) {
        auto& v = x->getList().values; if (f == "head") return v.empty() ? NUL : repr(v.front()); if (f == "last") return v.empty() ? NUL : repr(v.back()); if (f == "coalesce") { for (auto& e : v) if (!e.isNull()) return repr(e); return NUL; }
        if (f == "tail") { std::vector<std::string> r; for (size_t i = 1; i < v.size(); ++i) r.push_back(repr(v[i])); return L(r); }
    }
    return BADT;
}
// result sizes in the reach of the machine only
static bool tooBig(const std::string& f, const Args& a) {
    if ((f == "lpad" || f == "rpad") && a.size() == 3 && a[0].isStr() && a[1].isInt() && a[2].isStr() && !a[2].getStr().empty()) return a[1].getInt() > 5000;
    if (f == "range" && a.size() >= 2 && a[0].isInt() && a[1].isInt()) { __int128 s = 1; if (a.size() == 3) { if (!a[2].isInt()) return false; s = a[2].getInt(); } if (s == 0) return false; __int128 k = ((__int128)a[1].getInt() - a[0].getInt()) / s; return k > 5000; }
    return false;
}
static void call(Ctx& c, const Fn& fn, const std::vector<std::string>& texts, const std::string& name) {
    Args a; for (auto& t : texts) a.push_back(parse(t)); const std::string f = fn.name; std::string shown = name + "(" + vals::join(texts, false) + ")"; MC_LOG(c, shown);
    if (tooBig(f, a)) throw mc::Abandon();
    auto st = FunctionManager::get(name, a.size()); MC_CHECK(c, st.ok(), "found", "no function " << shown);
    FunctionManager::Function body = st.value(); std::vector<std::string> before; std::vector<VT> types; for (auto& v : a) { before.push_back(repr(v)); types.push_back(v.type()); }
    Value got; std::string r, w = want(f, a);
    for (int round = 0; round < 2; ++round) {
        std::vector<FunctionManager::ArgType> refs; refs.reserve(a.size()); for (auto& v : a) refs.emplace_back(std::cref(v)); Value g = body(refs); std::string now = repr(g);
        if (round && fn.pure) MC_CHECK(c, now == r, "deterministic", shown << " gives " << r << " and then " << now);
        got = g; r = now;
        for (size_t i = 0; i < a.size(); ++i) MC_CHECK(c, repr(a[i]) == before[i], "argument", shown << " changed an argument to " << repr(a[i]));
    }
    if (f == "strcasecmp" && a[0].isStr() && a[1].isStr() && a[0].getStr().find('\0') == std::string::npos && a[1].getStr().find('\0') == std::string::npos) { int k = low(a[0].getStr()).compare(low(a[1].getStr())); MC_CHECK(c, got.isInt() && (got.getInt() > 0) == (k > 0) && (got.getInt() < 0) == (k < 0), "result", shown << " gives " << r); }
    else MC_CHECK(c, w.empty() || r == w || f == "strcasecmp", "result", shown << " gives " << r << " instead of " << w);
    if (f == "tostring" && types[0] == VT::FLOAT) { MC_CHECK(c, got.isStr(), "result", shown << " gives " << r); double d = a[0].getFloat(); char* e; const char* s = got.getStr().c_str(); double back = strtod(s, &e); MC_CHECK(c, (*e == 0 && back == d) || std::isnan(d), "result", shown << " gives " << r << ", which reads back as " << back); }
    // the declared type of the result
    auto ty = FunctionManager::getReturnType(name, types); bool nullish = false; for (auto k : types) nullish |= k == VT::NULLVALUE || k == VT::__EMPTY__;
    if (f == "strcasecmp" && got.isInt() && ty.ok() && ty.value() == VT::STRING && c.known("strcasecmp-type")) {}
    else if (ty.ok() && ty.value() != VT::__EMPTY__) MC_CHECK(c, got.type() == ty.value() || got.isNull(), "type", shown << " gives " << r << ", which is not of the declared type " << (uint64_t)ty.value());
    if (!ty.ok() && f != "id" && f != "src" && f != "dst" && f != "udf_is_in" && f != "near" && f != "cos_similarity" && !nullish) MC_CHECK(c, got.isNull(), "undeclared", shown << " gives " << r << " for arguments that are not declared");
    c.step(2); c.state(shown); c.outcome(f + r.substr(0, 1));
}
static const std::vector<std::string> ALL = {
    "e", "n0", "n3", "b1", "b0", "i0", "i1", "i-1", "i3", "i10", "i9223372036854775807", "i-9223372036854775808", "f0", "f0.5", "f-2.5", "f2.5", "f1e21", "f1e-07", "f1e-09", "finf", "fnan", "''", "'a'", "'abcabc'", "' \\09aB c\\0a'", "'x\\00y'", "'2020-02-29'", "'01:02:03.5'", "'12.5'", "'true'", "'a text that does not fit in place, a text that does not'",
    "d(2020,2,29)", "t(1,2,3,400000)", "T(2020,2,29,1,2,3,400000)", "V('a')", "V(i7;'t'{'p':i1,'q':n0};'u'{'p':i2})", "E('a','b',1,'e',3,{'w':f0.5})", "E('a','b',-1,'e',0,{})", "P(V('a'))", "P(V('a');(V('b'),1,'e',0,{});(V('a';'t'{'p':i1}),-1,'e',0,{'x':i1}))", "P(V('a');(V('b'),1,'e',0,{});(V('a'),1,'e',0,{}))",
    "[]", "[i1]", "[n0,'a',[i1],n3]", "[n0,n0]", "{}", "{'k':i1,'a':[i2]}", "{'year':i2020,'month':i2}", "{'hour':i1}", "<>", "<i1,'a'>", "D()", "D('c','d';[i1,i2];[i3,'x'])"};
static const std::vector<std::string> TWO = {"e", "n0", "n3", "b1", "i0", "i1", "i2", "i-1", "i5", "i62", "i63", "i9223372036854775807", "i-9223372036854775808", "f0", "f0.5", "f-2.5", "f1e300", "fnan", "''", "'a'", "'B'", "'ab'", "'abcab'", "'aaaa'", "'AbCaB'", "d(2020,2,29)", "V('a')", "E('a','b',1,'e',3,{})", "P(V('a'))", "[]", "[i1]", "{}", "<i1>", "D('c';[i1])"};
static const std::vector<std::string> THREE = {"e", "n0", "b1", "i0", "i1", "i3", "i-1", "i7", "i9223372036854775807", "i-9223372036854775808", "i9223372036854775806", "i-3", "f0.5", "''", "'a'", "'ab'", "'abcab'", "'aaaa'", "'c'", "[]", "{}", "D()", "D('c')", "D('c','ab';[i1,i2];[i3,'x'])", "D('ab','ab';[i1,i2])"};

DECLARE_string(timezone_name);
int main(int argc, char** argv) {
    FLAGS_timezone_name = "UTC+02:30:00"; if (!nebula::time::Timezone::initializeGlobalTimezone().ok()) abort();
    std::vector<mc::Scenario> sc;
    sc.push_back({"arity", [](Ctx& c) {   // exactly the declared numbers of arguments
        const Fn& f = FNS[c.choose((int)FNS.size())]; int n = c.choose(8); size_t k = n == 7 ? 1000 : n; std::string name = f.name; bool want = k >= f.lo && k <= f.hi; MC_LOG(c, name << " with " << k << " arguments");
        MC_CHECK(c, FunctionManager::get(name, k).ok() == want && FunctionManager::find(name, k).ok() == want && FunctionManager::getIsPure(name, k).ok() == want, "arity", name << " with " << k << " arguments is " << (want ? "refused" : "accepted"));
        if (want) MC_CHECK(c, FunctionManager::getIsPure(name, k).value() == f.pure, "pure", name << " is declared " << (f.pure ? "not " : "") << "pure");
        c.step(3); c.state(name + std::to_string(k)); c.outcome(want ? "y" : "n");
    }, false, "85 functions with 0 to 6 and 1000 arguments"});
    sc.push_back({"names", [](Ctx& c) {   // any letter case names the function, and nothing else does
        const Fn& f = FNS[c.choose((int)FNS.size())]; std::string n = f.name; int how = c.choose(3);
        if (how == 0) { int k = n.size() <= 6 ? c.choose(1 << n.size()) : c.choose(2 * n.size() + 2); for (size_t i = 0; i < n.size(); ++i) if (n.size() <= 6 ? k >> i & 1 : (size_t)k == i || k == (int)(2 * n.size()) || (k >= (int)n.size() && k < (int)(2 * n.size()) && k - n.size() != i)) n[i] = toupper(n[i]); }
        else { int k = c.choose(n.size() + 1); if (how == 1) n = k < (int)n.size() ? n.substr(0, k) + n.substr(k + 1) : n + "x"; else n = n.substr(0, k) + "q" + n.substr(k); }
        bool want = false; for (auto& g : FNS) want |= low(n) == g.name && f.lo >= g.lo && f.lo <= g.hi; MC_LOG(c, quote(n));
        MC_CHECK(c, FunctionManager::find(n, f.lo).ok() == want && FunctionManager::get(n, f.lo).ok() == want, "name", "the name " << quote(n) << " with " << f.lo << " arguments is " << (want ? "refused" : "accepted"));
        c.step(2); c.state(n); c.outcome(want ? "y" : "n");
    }, false, "85 names in all (at most 6 letters) or all one-letter and whole-word variants of case, with one letter left out or added at every place"});
    sc.push_back({"none", [](Ctx& c) { std::vector<int> z; for (size_t i = 0; i < FNS.size(); ++i) if (FNS[i].lo == 0) z.push_back(i); const Fn& f = FNS[z[c.choose(z.size())]]; call(c, f, {}, f.name); }, false, "the 9 functions that take no argument"});
    sc.push_back({"one", [](Ctx& c) { const Fn& f = FNS[c.choose((int)FNS.size())]; if (f.lo > 1 || f.hi < 1) throw mc::Abandon(); const auto& t = c.pick(ALL); call(c, f, {t}, c.flip() ? f.name : up(f.name)); }, false, "all functions of one argument on 53 values of every type"});
    sc.push_back({"two", [](Ctx& c) { static const std::vector<int> z = [] { std::vector<int> r; for (size_t i = 0; i < FNS.size(); ++i) if (FNS[i].lo <= 2 && FNS[i].hi >= 2) r.push_back(i); return r; }(); const Fn& f = FNS[z[c.choose(z.size())]]; const auto& a = c.pick(TWO); const auto& b = c.pick(TWO); call(c, f, {a, b}, f.name); }, false, "all functions of two arguments on all pairs of 34 values"});
    sc.push_back({"three", [](Ctx& c) { static const std::vector<int> z = [] { std::vector<int> r; for (size_t i = 0; i < FNS.size(); ++i) if (FNS[i].lo <= 3 && FNS[i].hi >= 3) r.push_back(i); return r; }(); const Fn& f = FNS[z[c.choose(z.size())]]; const auto& a = c.pick(THREE); const auto& b = c.pick(THREE); const auto& d = c.pick(THREE); call(c, f, {a, b, d}, f.name); }, false, "all functions of three arguments on all triples of 25 values"});
    sc.push_back({"four", [](Ctx& c) {
        static const std::vector<std::string> V = {"e", "n0", "i0", "i1", "f1", "f-0.5", "'a'", "i3"}; const Fn& f = FNS[c.flip() ? 53 : 55]; std::vector<std::string> a; int n = 4 + (c.thorough() ? c.choose(2) : 0); for (int i = 0; i < n; ++i) a.push_back(c.pick(V)); call(c, f, a, f.name);
    }, false, "the two functions of any number of arguments on all quadruples (and quintuples) of 8 values"});
    sc.push_back({"strings", [](Ctx& c) {   // text functions at every boundary index of every short text
        static const std::vector<std::string> T = {"''", "'a'", "'ab'", "'aab'", "'a\\00b'", "'abcabc'"}; static const std::vector<std::string> X = {"''", "'a'", "'ab'", "'b'", "'abc'", "'aabb'"};
        static const char* N[] = {"left", "right", "substr", "substring", "lpad", "rpad", "replace", "split", "substr2"}; int k = c.choose(9); const auto& s = c.pick(T); std::string f = k == 8 ? "substr" : N[k]; const Fn* fn = nullptr; for (auto& g : FNS) if (f == g.name) fn = &g;
        auto idx = [&] { static const std::vector<std::string> E = {"i-1", "i-9223372036854775808", "i9223372036854775807", "i4294967296", "i4294967297", "i2147483648"}; int i = c.choose(10 + (int)E.size()); return i < 10 ? I(i) : E[i - 10]; };
        std::vector<std::string> a = {s}; if (k < 2 || k == 8) a.push_back(idx()); else if (k < 4) { a.push_back(idx()); a.push_back(idx()); } else if (k < 6) { a.push_back(idx()); a.push_back(c.pick(X)); } else { a.push_back(c.pick(X)); if (k == 6) a.push_back(c.pick(T)); }
        call(c, *fn, a, f);
    }, false, "8 text functions on 6 texts, all indices 0 to 9 and 6 boundary indices, 6 other texts"});
    sc.push_back({"alltexts", [](Ctx& c) {   // replace, split and trimming of all short texts
        static const std::string A("ab \t"); auto text = [&](int max) { std::string s; int n = c.choose(max + 1); for (int i = 0; i < n; ++i) s += A[c.choose(max > 2 ? 4 : 2)]; return quote(s); };
        static const char* N[] = {"replace", "split", "trim", "ltrim", "rtrim", "reverse", "upper", "strcasecmp"}; int k = c.choose(8); const Fn* fn = nullptr; for (auto& g : FNS) if (!strcmp(N[k], g.name)) fn = &g;
        std::vector<std::string> a = {text(c.thorough() ? 7 : 6)}; if (k < 2 || k == 7) a.push_back(text(2)); if (k == 0) a.push_back(text(2)); call(c, *fn, a, N[k]);
    }, false, "8 text functions on all texts of up to 6 (7) of 4 characters and, for their other arguments, up to 2 of 2"});
    sc.push_back({"ranges", [](Ctx& c) {
        static const std::vector<int64_t> V = {0, 1, 2, 5, -1, -3, INT64_MAX, INT64_MAX - 1, INT64_MAX - 4, INT64_MIN, INT64_MIN + 1, INT64_MIN + 4, 1LL << 62}; const Fn* fn = nullptr; for (auto& g : FNS) if (!strcmp("range", g.name)) fn = &g;
        std::vector<std::string> a = {I(c.pick(V)), I(c.pick(V))}; if (c.flip()) a.push_back(I(c.pick(V))); call(c, *fn, a, "range");
    }, false, "all ranges between 13 boundary integers by 13 boundary steps"});
    sc.push_back({"random", [](Ctx& c) {   // every answer of the generator stays within the bounds asked for
        static const std::vector<int64_t> V = {0, 1, 2, 7, 2147483647, 2147483648LL, 3000000000LL, 4294967295LL, 4294967296LL, INT64_MAX, -1, INT64_MIN}; static int q; bool wide = c.flip(); int n = c.choose(3); q = c.choose(3);
        mc_rand64_hook = [](uint64_t lo, uint64_t hi) -> uint64_t { return q == 0 ? lo : q == 1 ? hi - 1 : lo + (hi - 1 - lo) / 2; };
        std::vector<int64_t> a; for (int i = 0; i < n; ++i) a.push_back(c.pick(V)); std::vector<Value> v; for (auto x : a) v.emplace_back(x); std::vector<FunctionManager::ArgType> refs; for (auto& x : v) refs.emplace_back(x);
        std::string f = wide ? "rand64" : "rand32"; std::string shown = f + "("; for (auto x : a) shown += std::to_string(x) + ","; shown += ")"; Value g = FunctionManager::get(f, n).value()(refs); mc_rand64_hook = nullptr; MC_LOG(c, shown << " " << repr(g));
        int64_t lim = wide ? INT64_MAX : 4294967295LL; bool bad = false; for (auto x : a) bad |= x < 0 || x > lim; if (n == 2) bad |= a[0] >= a[1];
        if (bad) MC_CHECK(c, repr(g) == BADD, "random", shown << " gives " << repr(g));
        else { MC_CHECK(c, g.isInt(), "random", shown << " gives " << repr(g)); if (n == 1) MC_CHECK(c, g.getInt() >= 0 && (g.getInt() < a[0] || (a[0] == 0 && g.getInt() == 0)), "random", shown << " gives " << repr(g)); if (n == 2) MC_CHECK(c, g.getInt() >= a[0] && g.getInt() < a[1], "random", shown << " gives " << repr(g)); }
        c.step(); c.state(shown + std::to_string(q)); c.outcome(bad ? "bad" : "ok");
    }, false, "both generators with up to two of 12 boundary bounds and the least, middle and greatest random answer"});
    return mc::run(argc, argv, "C31", sc, {"The wall clock, time() and random numbers are virtual; the clock moves at every reading.", "Rows of a table are as long as its column names.", "Results of dates and times are judged by type here (C22 judges their values); arguments that ask for results of more than 5000 elements are left out.", "Texts with a zero byte are not judged for strcasecmp."});
}
