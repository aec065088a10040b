// C39: character sets and collations: every look-up for every name near a supported one, in every order.
#include "mc.h"
#include "common/charset/Charset.h"
#include <set>
using mc::Ctx;
using nebula::CharsetInfo;
using nebula::Status;
using std::string;
using std::vector;
static string show(const string& s) { string r = "'"; for (char ch : s) { if (ch >= 32 && ch < 127) r += ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)ch); r += b; } } return r + "'"; }
static void near(std::set<string>& out, const string& s, const string& alpha) {
    out.insert(s);
    for (size_t i = 0; i <= s.size(); ++i) {
        out.insert(s.substr(0, i)); out.insert(s.substr(i));
        for (char a : alpha) { string t = s; t.insert(t.begin() + i, a); out.insert(t); if (i < s.size()) { t = s; t[i] = a; out.insert(t); } }
        if (i < s.size()) { string t = s; t.erase(t.begin() + i); out.insert(t); t = s; t[i] ^= 0x20; out.insert(t); if (i + 1 < s.size()) { t = s; std::swap(t[i], t[i + 1]); out.insert(t); } }
    }
    out.insert(s + s); out.insert(string(200, 'x') + s);
}
static const string kAlpha = string("utf8_binTB4- `'%s\n") + '\0' + '\x80' + '\xff';
static vector<string> names(bool thorough) {
    std::set<string> base{"utf8", "utf8_bin", ""}, all;
    for (auto& d : CharsetInfo::instance()->getCharsetDesc()) { base.insert(d.first); for (auto& s : d.second.supportColls_) base.insert(s); }
    for (auto& s : base) near(all, s, kAlpha);
    for (auto s : {"utf8mb4", "utf8_general_ci", "utf8mb4_bin", "utf16", "latin1", "gbk", "binary", "UTF8", "utf-8", "%s%s%n", "big5"}) near(all, s, thorough ? kAlpha : string());
    if (thorough) { vector<string> two(base.begin(), base.end()); for (auto& s : two) { std::set<string> one; near(one, s, "u8_n%\xff"); for (auto& t : one) near(all, t, "u8_"); } }
    return vector<string>(all.begin(), all.end());
}
static void tables(Ctx& c) {
    auto* ci = CharsetInfo::instance(); auto d = ci->getCharsetDesc();
    MC_CHECK(c, ci == CharsetInfo::instance(), "instance", "two instances");
    MC_CHECK(c, d.count("utf8"), "utf8-missing", "utf8 is not described");
    std::map<string, string> owner;
    for (auto& e : d) {
        c.step();
        MC_CHECK(c, e.second.charsetName_ == e.first, "name", "the description of " + show(e.first) + " names " + show(e.second.charsetName_));
        MC_CHECK(c, ci->isSupportCharset(e.first).ok(), "set-refused", show(e.first) + " is described and not supported");
        auto def = ci->getDefaultCollationbyCharset(e.first);
        MC_CHECK(c, def.ok() && def.value() == e.second.defaultColl_, "default", "default collation of " + show(e.first) + " is not the described one");
        bool in = false; std::set<string> seen;
        for (auto& s : e.second.supportColls_) {
            in |= s == e.second.defaultColl_;
            MC_CHECK(c, seen.insert(s).second, "listed-twice", show(s) + " is listed twice for " + show(e.first));
            MC_CHECK(c, !owner.count(s), "two-sets", show(s) + " belongs to " + show(owner[s]) + " and " + show(e.first)); owner[s] = e.first;
            MC_CHECK(c, ci->isSupportCollate(s).ok(), "collation-refused", show(s) + " is described and not supported");
            auto o = ci->getCharsetbyCollation(s);
            MC_CHECK(c, o.ok() && o.value() == e.first, "owner", "the set of " + show(s) + " is not " + show(e.first));
            MC_CHECK(c, ci->charsetAndCollateMatch(e.first, s).ok(), "pair-refused", show(e.first) + " and " + show(s) + " do not match");
        }
        MC_CHECK(c, in, "default-foreign", "the default collation of " + show(e.first) + " is none of its own");
        MC_CHECK(c, e.second.maxLen_ >= 1 && (e.first != "utf8" || e.second.maxLen_ == 4), "width", "width of " + show(e.first) + " is " + std::to_string(e.second.maxLen_));
    }
    c.outcome(std::to_string(d.size()) + " sets");
}
static std::map<string, std::set<string>> world() { std::map<string, std::set<string>> w; for (auto& d : CharsetInfo::instance()->getCharsetDesc()) w[d.first] = std::set<string>(d.second.supportColls_.begin(), d.second.supportColls_.end()); return w; }
static bool named(const Status& s, const string& name) { string t = s.toString(), n = name.c_str(); return !s.ok() && t.find(n.substr(0, 120)) != string::npos; }
// one look-up, judged
static void look(Ctx& c, int op, const string& n, const string& m, const std::map<string, std::set<string>>& w) {
    auto* ci = CharsetInfo::instance(); c.step();
    bool isSet = w.count(n); string owner; for (auto& e : w) if (e.second.count(n)) owner = e.first; bool isColl = !owner.empty();
    string what = show(n);
    switch (op) {
        case 0: { auto s = ci->isSupportCharset(n); MC_CHECK(c, s.ok() == isSet, "set", what + (isSet ? " is refused as a character set" : " is accepted as a character set")); if (!isSet) MC_CHECK(c, named(s, n), "message", "the refusal of set " + what + " reads: " + s.toString()); break; }
        case 1: { auto s = ci->isSupportCollate(n); MC_CHECK(c, s.ok() == isColl, "collation", what + (isColl ? " is refused as a collation" : " is accepted as a collation")); if (!isColl) MC_CHECK(c, named(s, n), "message", "the refusal of collation " + what + " reads: " + s.toString()); break; }
        case 2: { auto s = ci->getDefaultCollationbyCharset(n); MC_CHECK(c, s.ok() == isSet, "default-of", what + ": default collation " + (isSet ? "missing" : "given for no set")); if (s.ok()) MC_CHECK(c, w.at(n).count(s.value()), "default-foreign", "the default collation of " + what + " is " + show(s.value())); else MC_CHECK(c, named(s.status(), n), "message", "the refusal of set " + what + " reads: " + s.status().toString()); break; }
        case 3: { auto s = ci->getCharsetbyCollation(n); MC_CHECK(c, s.ok() == isColl, "set-of", what + ": set " + (isColl ? "missing" : "given for no collation")); if (s.ok()) MC_CHECK(c, s.value() == owner, "owner", "the set of " + what + " is " + show(s.value())); else MC_CHECK(c, named(s.status(), n), "message", "the refusal of collation " + what + " reads: " + s.status().toString()); break; }
        default: { bool want = isSet && w.at(n).count(m); auto s = ci->charsetAndCollateMatch(n, m); MC_CHECK(c, s.ok() == want, "pair", what + " and " + show(m) + (want ? " are refused as a pair" : " are accepted as a pair")); if (!want) MC_CHECK(c, named(s, n) && (n.size() + m.size() > 150 || named(s, m)), "message", "the refusal of " + what + " with " + show(m) + " reads: " + s.toString()); }
    }
}
static void lookups(Ctx& c) { static const auto ns = names(c.thorough()); static const auto w = world(); auto& n = c.pick(ns); for (int op = 0; op < 4; ++op) look(c, op, n, "", w); }
static void pairs(Ctx& c) { static const auto ns = names(false); static const auto w = world(); auto& n = c.pick(ns); for (auto& m : ns) { look(c, 4, n, m, w); } }
static void histories(Ctx& c) {
    static const vector<string> ns{"utf8", "utf8_bin", "", "gbk", "UTF8"}; static const auto w = world();
    int len = c.thorough() ? 4 : 3; for (int i = 0; i < len; ++i) { int op = c.choose(6); if (op == 5) { auto d = CharsetInfo::instance()->getCharsetDesc(); d["gbk"] = d.begin()->second; d.erase("utf8"); continue; } auto& n = c.pick(ns); look(c, op, n, op == 4 ? c.pick(ns) : string(), w); }
    for (auto& n : ns) for (int op = 0; op < 4; ++op) look(c, op, n, "", w);
    MC_CHECK(c, world() == w, "changed", "the tables changed by looking things up");
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C39", {
        {"tables", tables, false, "every entry of the description tables against every look-up", 30, false},
        {"lookups", lookups, false, "every supported name, every name one change of 20 characters away from it (thorough: two changes), and names of other systems, in the four look-ups of one name"},
        {"pairs", pairs, false, "all pairs of those names"},
        {"histories", histories, false, "all sequences of 3 (4) look-ups over 5 names and of changes to the copied tables, then every look-up again"},
    }, {"an error message holds the name up to its first NUL, and at least its first 120 characters"});
}
