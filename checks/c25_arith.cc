// C25: arithmetic, logic, comparison and conversion of dynamic values, every operator on every pair of an alphabet.
#include "common/base/Base.h"
#include "mc.h"
#include "vals.h"
#include "valrel.h"
#include "gregorian.h"
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr; using vals::VT;

static const char* OPS[] = {"+", "-", "*", "/", "%", "&&", "||", "&", "|", "^", "equal", "lessThan"};
static Value apply(int op, const Value& a, const Value& b) {
    switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a % b; case 5: return a && b; case 6: return a || b; case 7: return a & b; case 8: return a | b; case 9: return a ^ b; case 10: return a.equal(b); default: return a.lessThan(b); }
}
static const std::string BAD = "n3", OVER = "n4", DIV0 = "n6";
static bool isNum(const Value& v) { return v.isInt() || v.isFloat(); }
static double num(const Value& v) { return v.isInt() ? (double)v.getInt() : v.getFloat(); }
static std::string I(__int128 x) { if (x > INT64_MAX || x < INT64_MIN) return OVER; return "i" + std::to_string((int64_t)x); }
static std::string F(double d) { return vals::reprFloat(d); }
static std::string str(const char* fmt, ...) { char b[100]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static std::string text(const Value& v) {   // how a value reads when joined to a text
    switch (v.type()) {
        case VT::BOOL: return v.getBool() ? "true" : "false"; case VT::INT: return str("%lld", (long long)v.getInt()); case VT::STRING: return v.getStr();
        case VT::FLOAT: return str("%g", v.getFloat());   // the alphabet holds floats for which this is the shortest exact text
        case VT::DATE: { auto d = v.getDate(); return str("%d-%02d-%02d", d.year, d.month, d.day); }
        case VT::TIME: { auto t = v.getTime(); return str("%02d:%02d:%02d.%06d", t.hour, t.minute, t.sec, t.microsec); }
        case VT::DATETIME: { auto t = v.getDateTime(); return str("%d-%02d-%02dT%02d:%02d:%02d.%d", (int)t.year, (int)t.month, (int)t.day, (int)t.hour, (int)t.minute, (int)t.sec, (int)t.microsec); }
        default: return "?";
    }
}
// day numbers with every fourth year a leap year, as the repository counts them, or by the Gregorian calendar (finding of C21)
static __int128 day(const Date& d, bool greg) { static const int M[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; long y = d.year + 32768L; __int128 n = y * 365 + (y + 3) / 4; bool leap = y % 4 == 0;
    if (greg) { long Y = d.year + 400000L; leap = Y % 4 == 0 && (Y % 100 != 0 || Y % 400 == 0); Y -= 1; n = (__int128)Y * 365 + Y / 4 - Y / 100 + Y / 400; }
    return n + M[d.month - 1] + (leap && d.month > 2) + d.day; }
static std::string moved(const Date& d, __int128 by) {   // the date `by` days later, stepping in the repository's calendar
    Date lo(INT16_MIN, 1, 1), hi(INT16_MAX, 12, 31); __int128 t = day(d, false) + by; if (t < day(lo, false) || t > day(hi, false)) return OVER;
    long y = d.year; while (day(Date((int16_t)y, 1, 1), false) > t) --y; while (y < INT16_MAX && day(Date((int16_t)(y + 1), 1, 1), false) <= t) ++y;
    int m = 12; while (day(Date((int16_t)y, (int8_t)m, 1), false) > t) --m;
    return repr(Date((int16_t)y, (int8_t)m, (int8_t)(t - day(Date((int16_t)y, (int8_t)m, 1), false) + 1)));
}
static std::vector<std::string> want(int op, const Value& a, const Value& b) {
    VT s = a.type(), t = b.type(); std::string ra = repr(a), rb = repr(b);
    if (op == 10) { if (a.isNull() || b.isNull()) return {"n0"}; if (a.empty() || b.empty()) return {a.empty() && b.empty() ? "b1" : "b0"}; return {valrel::eq(a, b) ? "b1" : "b0"}; }
    if (op == 11) {
        if (a.isNull() || b.isNull()) return {"n0"}; if (a.empty() || b.empty()) return {"e"};
        if (isNum(a) && isNum(b)) { if (s == VT::INT && t == VT::INT) return {a.getInt() < b.getInt() ? "b1" : "b0"}; return {num(a) < num(b) && !(std::fabs(num(a) - num(b)) < 1e-8) ? "b1" : "b0"}; }
        if (s != t) return {"n0"}; return {valrel::cmp(a, b) < 0 ? "b1" : "b0"};
    }
    if (op == 5 || op == 6) {
        if (a.isNull()) return {ra}; if (b.isNull()) return {rb}; if (a.empty() || b.empty()) return {"e"}; if (!a.isBool() || !b.isBool()) return {BAD};
        return {(op == 5 ? a.getBool() && b.getBool() : a.getBool() || b.getBool()) ? "b1" : "b0"};
    }
    if (a.isNull()) return {ra}; if (b.isNull()) return {rb}; if (a.empty() || b.empty()) return {"e"};
    if (op >= 7) { if (!a.isInt() || !b.isInt()) return {BAD}; uint64_t x = a.getInt(), y = b.getInt(); return {I((int64_t)(op == 7 ? x & y : op == 8 ? x | y : x ^ y))}; }
    if (isNum(a) && isNum(b)) {
        bool ints = a.isInt() && b.isInt(); __int128 x = a.isInt() ? a.getInt() : 0, y = b.isInt() ? b.getInt() : 0; double p = num(a), q = num(b);
        switch (op) { case 0: return {ints ? I(x + y) : F(p + q)}; case 1: return {ints ? I(x - y) : F(p - q)}; case 2: return {ints ? I(x * y) : F(p * q)}; }
        if (b.isInt() ? y == 0 : !(std::fabs(q) > 1e-8)) return {DIV0};
        if (op == 3) return {ints ? I(x / y) : F(p / q)}; return {ints ? I(x % y) : F(fmod(p, q))};
    }
    if (op == 0) {
        if (s == VT::LIST && t == VT::LIST) { auto x = ra.substr(1, ra.size() - 2), y = rb.substr(1, rb.size() - 2); return {"[" + x + (x.empty() || y.empty() ? "" : ",") + y + "]"}; }
        if (s == VT::LIST && t != VT::DATASET) return {ra == "[]" ? "[" + rb + "]" : ra.substr(0, ra.size() - 1) + "," + rb + "]"};
        if (t == VT::LIST && s != VT::DATASET) return {rb == "[]" ? "[" + ra + "]" : "[" + ra + "," + rb.substr(1)};
        auto textual = [](VT k) { return k == VT::BOOL || k == VT::INT || k == VT::FLOAT || k == VT::STRING || k == VT::DATE || k == VT::TIME || k == VT::DATETIME; };
        if ((s == VT::STRING && textual(t)) || (t == VT::STRING && textual(s))) return {vals::quote(text(a) + text(b))};
        if (s == VT::DATE && t == VT::INT) return {moved(a.getDate(), b.getInt())}; if (s == VT::INT && t == VT::DATE) return {moved(b.getDate(), a.getInt())};
    }
    if (op == 1 && s == VT::DATE && t == VT::INT) return {moved(a.getDate(), -(__int128)b.getInt())};
    if (op == 1 && s == VT::DATE && t == VT::DATE) return {I(day(a.getDate(), false) - day(b.getDate(), false)), I(day(a.getDate(), true) - day(b.getDate(), true))};
    return {BAD};
}
static const std::vector<std::string> ALL = {
    "e", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "b0", "b1", "i0", "i1", "i-1", "i2", "i-7", "i3", "i4294967296", "i3037000500", "i-3037000500", "i9007199254740993", "i9223372036854775807", "i9223372036854775806", "i-9223372036854775808", "i-9223372036854775807", "i4611686018427387904",
    "f0", "f-0", "f0.5", "f-2.5", "f1", "f3", "f1e-08", "f1.1e-08", "f-1e-09", "f1.000000001", "f9.2233720368547758e18", "f1e308", "f-1e308", "finf", "f-inf", "f5e-324", "''", "'a'", "'b'", "'a\\00b'", "'5'", "'%s%n'", "'a text that does not fit in place'",
    "d(2020,2,29)", "d(2020,2,28)", "d(2021,1,1)", "d(32767,12,31)", "d(-32768,1,1)", "t(1,2,3,400000)", "t(23,59,59,999999)", "T(2020,2,29,1,2,3,400000)", "T(-1,12,31,23,59,59,999999)", "V('a')", "V('b';'t'{'p':i1})", "E('a','b',1,'e',0,{})", "E('b','a',-1,'e',0,{})", "P(V('a');(V('b'),1,'e',0,{}))", "P(V('a'))",
    "[]", "[i1]", "['a',[n0],e]", "{}", "{'k':i1}", "<>", "<i1>", "D()", "D('c';[i1])"};
static void pairOp(Ctx& c, int op, const std::string& ta, const std::string& tb) {
    Value a = parse(ta), b = parse(tb); const std::string ra = repr(a), rb = repr(b); MC_LOG(c, ra << " " << OPS[op] << " " << rb);
    if (op == 0 && ((a.isStr() && b.isFloat()) || (a.isFloat() && b.isStr()))) { double d = a.isFloat() ? a.getFloat() : b.getFloat(); if (str("%g", d).find_first_of("en") != std::string::npos || atof(str("%g", d).c_str()) != d) throw mc::Abandon(); }
    std::vector<std::string> w = want(op, a, b); std::string got = repr(apply(op, a, b));
    MC_CHECK(c, std::find(w.begin(), w.end(), got) != w.end(), "result", ra << " " << OPS[op] << " " << rb << " gives " << got << " instead of " << w[0]);
    MC_CHECK(c, repr(a) == ra && repr(b) == rb, "operand", ra << " " << OPS[op] << " " << rb << " changed an operand");
    if (ra == rb) { Value x = parse(ra); got = repr(apply(op, x, x)); MC_CHECK(c, std::find(w.begin(), w.end(), got) != w.end(), "result", ra << " " << OPS[op] << " itself gives " << got << " instead of " << w[0]); }
    c.step(); c.state(ra + OPS[op] + rb); c.outcome(OPS[op] + got.substr(0, 1));
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"binary", [](Ctx& c) { int op = c.choose(12); const auto& a = c.pick(ALL); const auto& b = c.pick(ALL); pairOp(c, op, a, b); }, false, "12 binary operators on all pairs of 73 values of every type"});
    sc.push_back({"unary", [](Ctx& c) {
        const auto& t = c.pick(ALL); bool neg = c.flip(); Value a = parse(t); const std::string r = repr(a); std::string got = repr(neg ? -a : !a), w;
        if (a.isNull() || a.empty()) w = r; else if (neg) w = a.isInt() ? I(-(__int128)a.getInt()) : a.isFloat() ? F(-a.getFloat()) : BAD; else w = a.isBool() ? (a.getBool() ? "b0" : "b1") : BAD;
        MC_CHECK(c, got == w, "result", (neg ? "-" : "!") << r << " gives " << got << " instead of " << w); MC_CHECK(c, repr(a) == r, "operand", "the operand " << r << " was changed");
        c.step(); c.state(r + (neg ? "-" : "!")); c.outcome(got.substr(0, 1));
    }, false, "negation and complement of 73 values"});
    sc.push_back({"integers", [](Ctx& c) {   // all boundary integer pairs
        int op = c.choose(10); static const std::vector<int64_t> B = [] { std::vector<int64_t> r; for (int s : {0, 1, 8, 16, 31, 32, 33, 52, 53, 62}) for (int d : {-1, 0, 1}) { r.push_back((1LL << s) + d); r.push_back(-(1LL << s) + d); } for (int d = 0; d < 3; ++d) { r.push_back(INT64_MAX - d); r.push_back(INT64_MIN + d); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }();
        int64_t x = c.pick(B), y = c.pick(B); pairOp(c, op, "i" + std::to_string(x), "i" + std::to_string(y));
    }, false, "10 operators on all pairs of boundary integers (every power of two of interest and its neighbours)"});
    sc.push_back({"floats", [](Ctx& c) {
        static const int OP[] = {0, 1, 2, 3, 4, 10, 11}; int op = OP[c.choose(7)]; static const std::vector<std::string> B = {"f0", "f-0", "f1e-08", "f-1e-08", "f1.0000000000000002e-08", "f9.9999999999999994e-09", "f1", "f1.00000001", "f1.000000009", "f1.000000011", "f-1", "f2", "f0.10000000000000001", "f9007199254740992", "f9007199254740994", "f9.2233720368547758e18", "f9.2233720368547748e18", "f-9.2233720368547758e18", "f1.7976931348623157e308", "f-1.7976931348623157e308", "f4.9406564584124654e-324", "finf", "f-inf", "i0", "i1", "i-1", "i9007199254740993", "i9223372036854775807", "i-9223372036854775808"};
        const auto& a = c.pick(B); const auto& b = c.pick(B); pairOp(c, op, a, b);
    }, false, "7 operators on all pairs of boundary floating-point numbers and integers"});
    sc.push_back({"nan", [](Ctx& c) {   // not-a-number behaves as in floating-point arithmetic and is never equal or less
        static const std::vector<std::string> B = {"fnan", "f1", "i1", "finf", "i0"}; int op = c.choose(5); const auto& b = c.pick(B); bool left = c.flip();
        Value n = parse("fnan"), v = parse(b); Value r; std::string got;
        if (op < 3) { got = repr(left ? apply(op, n, v) : apply(op, v, n)); MC_CHECK(c, got == "fnan", "nan", "not-a-number " << OPS[op] << " " << b << " gives " << got); }
        else { got = repr(left ? apply(op + 7, n, v) : apply(op + 7, v, n)); MC_CHECK(c, got == "b0", "nan", "not-a-number " << OPS[op + 7] << " " << b << " gives " << got); }
        c.step(); c.state(b + OPS[op]); c.outcome(got);
    }, false, "not-a-number with 5 operators on either side"});
    sc.push_back({"dates", [](Ctx& c) {   // moving dates by days, to and beyond the limits
        static const std::vector<std::string> D = {"d(2020,2,29)", "d(2019,3,1)", "d(2020,12,31)", "d(2021,1,1)", "d(32767,12,31)", "d(32767,12,1)", "d(-32768,1,1)", "d(-32768,3,1)", "d(-1,12,31)", "d(1970,1,1)"};
        static const std::vector<std::string> N = {"i0", "i1", "i-1", "i28", "i-31", "i59", "i-60", "i365", "i-366", "i23936165", "i23936166", "i-23936165", "i11980000", "i-11980000", "i24000000", "i-24000000", "i2147483648", "i-2147483649", "i4294967296", "i9223372036854775807", "i-9223372036854775808", "i-9223372036854775807", "i9223372036842795295"};
        const auto& d = c.pick(D); const auto& n = c.pick(N); int form = c.choose(3); if (form == 2) pairOp(c, 0, n, d); else pairOp(c, form, d, n);
    }, false, "10 dates moved by 23 numbers of days in three ways"});
    sc.push_back({"chains", [](Ctx& c) {   // the result of one operator is an operand of the next
        static const std::vector<std::string> V = {"e", "n0", "n4", "b1", "b0", "i0", "i-1", "i9223372036854775807", "i-9223372036854775808", "f0.5", "'a'", "[i1]", "d(2020,2,29)"};
        int o1 = c.choose(12), o2 = c.choose(12); const auto& a = c.pick(V); const auto& b = c.pick(V); const auto& d = c.pick(V);
        Value x = parse(a), y = parse(b), z = parse(d); Value m = apply(o1, x, y); std::string rm = repr(m); Value mm = parse(rm); bool left = c.flip();
        MC_LOG(c, (left ? "(" : d + OPS[o2] + "(") << a << " " << OPS[o1] << " " << b << ")" << (left ? OPS[o2] + d : ""));
        bool flt = m.isFloat() && o2 == 0; if (flt && z.isStr()) throw mc::Abandon();
        auto w = left ? want(o2, mm, z) : want(o2, z, mm); std::string got = repr(left ? apply(o2, m, z) : apply(o2, z, m));
        MC_CHECK(c, std::find(w.begin(), w.end(), got) != w.end(), "chain", "the result " << rm << " of " << a << " " << OPS[o1] << " " << b << " with " << OPS[o2] << " " << d << " gives " << got << " instead of " << w[0]);
        c.step(2); c.state(rm + OPS[o2] + d); c.outcome(OPS[o2] + got.substr(0, 1));
    }, false, "two operators in a row on all triples of 13 values"});
    sc.push_back({"convert", [](Ctx& c) {
        const auto& t = c.pick(ALL); int k = c.choose(3); Value a = parse(t); const std::string r = repr(a); if (a.isStr()) throw mc::Abandon();
        std::string got = repr(k == 0 ? a.toBool() : k == 1 ? a.toFloat() : a.toInt()), w;
        if (a.isNull() || a.empty()) w = "n0"; else if (k == 0) w = a.isBool() ? r : BAD;
        else if (k == 1) w = isNum(a) ? F(num(a)) : BAD;
        else w = a.isInt() ? r : a.isFloat() ? (a.getFloat() >= 9.2233720368547758e18 ? I(INT64_MAX) : a.getFloat() <= -9.2233720368547758e18 ? I(INT64_MIN) : I((int64_t)a.getFloat())) : BAD;
        MC_CHECK(c, got == w, "convert", r << " to " << (k == 0 ? "bool" : k == 1 ? "float" : "int") << " gives " << got << " instead of " << w); MC_CHECK(c, repr(a) == r, "operand", "the operand " << r << " was changed");
        MC_CHECK(c, repr(Value(NAN).toInt())[0] == 'n', "convert", "not-a-number converts to an integer");
        c.step(); c.state(r + std::to_string(k)); c.outcome(got.substr(0, 1));
    }, false, "conversion of 73 values to booleans, floats and integers"});
    sc.push_back({"texts", [](Ctx& c) {   // conversion of every short text
        static const std::string A("-+19.e xtT\0", 11); static const std::vector<std::string> B = {"true", "TRUE", "tRuE", "false", "False", "true ", "falsee", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "9223372036854775807.0", "9223372036854774784.0", "-9223372036854775808.0", "-9223372036854775809.0", "-9223372036854777856.0", "1.0e18", "1.0e19", "-1.0e30", "1.e400", "0.1e-400", "123.", ".5", "-.5", "00012", std::string("12\0", 3), std::string("1.5\0x", 5), std::string("true\0", 5), "1,5", "1.2.3", "--1", "1e3"};
        std::string s; int n = c.choose(c.thorough() ? 7 : 6); if (n == 0) s = c.pick(B); else for (int i = 0; i < n; ++i) s += A[c.choose(11)];
        std::string low; for (char ch : s) low += (char)tolower((unsigned char)ch); std::string q = vals::quote(s);
        std::string got = repr(Value(s).toBool()), w = low == "true" ? "b1" : low == "false" ? "b0" : "n0";
        MC_CHECK(c, got == w, "text-bool", q << " to bool gives " << got << " instead of " << w);
        std::string t = s; bool nul = s.find('\0') != std::string::npos; char* e; errno = 0; double d = strtod(t.c_str(), &e); bool whole = !nul && *e == 0 && e != t.c_str();
        got = repr(Value(s).toFloat()); w = whole ? F(d) : "n0"; MC_CHECK(c, got == w, "text-float", q << " to float gives " << got << " instead of " << w);
        if (s.find('.') != std::string::npos) w = !whole ? "n0" : d >= 9.2233720368547758e18 || d < -9.2233720368547758e18 ? OVER : I((int64_t)d);
        else { size_t i = 0; while (i < s.size() && s[i] == ' ') ++i; bool neg = i < s.size() && s[i] == '-'; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; size_t st = i; __int128 x = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { if (x < ((__int128)1 << 100)) x = x * 10 + (s[i] - '0'); ++i; } w = i == s.size() && i > st ? I(neg ? -x : x) : "n0"; }
        got = repr(Value(s).toInt()); MC_CHECK(c, got == w, "text-int", q << " to int gives " << got << " instead of " << w);
        c.step(3); c.state(q); c.outcome(got.substr(0, 1));
    }, false, "conversion of all texts of up to 5 (6) of 11 characters and of boundary numbers in text"});
    return mc::run(argc, argv, "C25", sc, {"floating-point division by not-a-number and conversion of the empty text are not specified", "the text of a floating-point number joined to a text is checked for numbers with a short exact form only"});
}
