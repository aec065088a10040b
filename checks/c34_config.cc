// C34: configurations: typed look-ups, texts in every layout, files read with chosen results of every system call.
#include "mc.h"
#include "heap.h"
#include "common/conf/Configuration.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <nlohmann/json.hpp>
using mc::Ctx;
using nebula::conf::Configuration;
using nebula::Status;
using std::string;
using std::vector;
using J = nlohmann::json;
template <class... A> static auto use(A&&...) {}

// ---- reading the file under test: every result of a read is chosen
static string g_dir; static bool g_active = false; static Ctx* g_c = nullptr; static int g_budget = 0, g_failed = 0, g_openErr = 0; static bool g_mode = false;
extern "C" ssize_t read(int fd, void* b, size_t n) {
    static auto real = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
    if (!g_active || !g_mode || n == 0) return real(fd, b, n);
    if (g_budget <= 0) return real(fd, b, n);
    --g_budget;
    switch (g_c->choose(5)) {
        case 0: return real(fd, b, n);
        case 1: return real(fd, b, 1);
        case 2: return real(fd, b, n < 7 ? n : 7);
        case 3: errno = EINTR; return -1;
        default: ++g_failed; errno = EIO; return -1;
    }
}
static int openWith(const char* name, const char* p, int fl, mode_t m) {
    auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, name);
    if (g_active && g_openErr) { errno = g_openErr; return -1; }
    return real(p, fl, m);
}
extern "C" int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return openWith("open", p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return openWith("open64", p, fl, m); }
static int fdCount() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static string file(const string& text) {
    string p = g_dir + "/f" + std::to_string(getpid()); auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    int fd = real(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t at = 0; while (at < text.size()) { ssize_t k = write(fd, text.data() + at, text.size() - at); if (k <= 0) abort(); at += k; } close(fd);
    return p;
}
// ---- the content of a configuration, by our own means
static bool same(const folly::dynamic& d, const J& j) {
    switch (j.type()) {
        case J::value_t::null: return d.isNull();
        case J::value_t::boolean: return d.isBool() && d.getBool() == j.get<bool>();
        case J::value_t::number_integer: case J::value_t::number_unsigned: return d.isInt() && d.getInt() == j.get<int64_t>();
        case J::value_t::number_float: return d.isDouble() && d.getDouble() == j.get<double>();
        case J::value_t::string: return d.isString() && d.getString() == j.get<string>();
        case J::value_t::array: if (!d.isArray() || d.size() != j.size()) return false; for (size_t i = 0; i < j.size(); ++i) if (!same(d[(int64_t)i], j[i])) return false; return true;
        case J::value_t::object: { if (!d.isObject() || d.size() != j.size()) return false; for (auto& e : j.items()) { auto p = d.get_ptr(e.key()); if (!p || !same(*p, e.value())) return false; } return true; }
        default: return false;
    }
}
// numbers whose fraction is zero are written as integers
static bool near(const J& a, const J& b) {
    if (a.is_number() && b.is_number()) return a.get<double>() == b.get<double>() && (a.is_number_float() || b.is_number_float() || a.get<int64_t>() == b.get<int64_t>());
    if (a.type() != b.type() || a.size() != b.size()) return false;
    if (a.is_array()) { for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i])) return false; return true; }
    if (a.is_object()) { for (auto& e : a.items()) if (!b.contains(e.key()) || !near(e.value(), b[e.key()])) return false; return true; }
    return a == b;
}
static void holds(Ctx& c, const Configuration& f, const J& want, const string& what) {
    J got = J::object(); bool ok = true; vector<string> keys, keys2;
    auto s = f.forEachItem([&](const string& k, const folly::dynamic& v) { keys.push_back(k); if (!want.contains(k) || !same(v, want[k])) ok = false; });
    auto s2 = f.forEachKey([&](const string& k) { keys2.push_back(k); });
    std::sort(keys.begin(), keys.end()); std::sort(keys2.begin(), keys2.end());
    vector<string> w; for (auto& e : want.items()) w.push_back(e.key());
    std::sort(w.begin(), w.end());
    MC_CHECK(c, s.ok() && s2.ok() && ok && keys == w && keys2 == w, "content", what << ": the content is " << f.dumpToString() << " instead of " << want.dump());
}
static const vector<J>& values() {
    static const vector<J> v = {nullptr, true, false, 0, 1, -1, 123, INT64_MAX, INT64_MIN, 0.5, 1.0, -2.5e300, 1e-300, "", "a", "12", "-3", "1.5", "true", "x//y", "a#b", "q\"\\/", "line\nbreak\ttab", "\xc3\xa9\xe2\x82\xac", string(300, 'z'),
        J::array(), J::array({1}), J::array({1, "2", 3}), J::array({1.5, "2.5", 3}), J::array({true, 0, "true"}), J::array({"a", 1, 2.5, true}), J::array({1, J::array()}), J::array({1, 2, "x"}), J::array({"a", J::object()}), J::array({nullptr}), J::array({1, 2.5}), J::array({0, 1}), J::array({2.0, 3}),
        J::object(), J::object({{"k", "v"}}), J::object({{"k", 1}, {"l", J::object({{"m", J::array({1})}})}})};
    return v;
}
// conversion of array elements; what cannot be converted is an error
static bool elem(const J& j, int64_t& o) {
    if (j.is_boolean()) { o = j.get<bool>(); return true; }
    if (j.is_number_float()) { double d = j.get<double>(); if (d != std::trunc(d) || std::fabs(d) > 1e18) return false; o = (int64_t)d; return true; }
    if (j.is_number()) { o = j.get<int64_t>(); return true; }
    if (j.is_string()) { string s = j.get<string>(); if (s.empty()) return false; char* e; errno = 0; o = strtoll(s.c_str(), &e, 10); return !*e && !errno; }
    return false;
}
static bool elem(const J& j, double& o) {
    if (j.is_boolean()) { o = j.get<bool>(); return true; }
    if (j.is_number()) { o = j.get<double>(); return true; }
    if (j.is_string()) { string s = j.get<string>(); if (s.empty()) return false; char* e; o = strtod(s.c_str(), &e); return !*e; }
    return false;
}
static bool elem(const J& j, bool& o) {
    if (j.is_boolean()) { o = j.get<bool>(); return true; }
    if (j.is_number()) { o = j.get<double>() != 0; return true; }
    if (j.is_string()) { string s = j.get<string>(); if (s == "true" || s == "1") { o = true; return true; } if (s == "false" || s == "0") { o = false; return true; } return false; }
    return false;
}
static bool elem(const J& j, string& o) {
    if (j.is_boolean()) { o = j.get<bool>() ? "1" : "0"; return true; }
    if (j.is_number_float()) { double d = j.get<double>(); char b[40]; snprintf(b, sizeof b, "%.15g", d); o = b; return true; }
    if (j.is_number()) { o = std::to_string(j.get<int64_t>()); return true; }
    if (j.is_string()) { o = j.get<string>(); return true; }
    return false;
}
template <class T> static bool is(const J& j);
template <> bool is<int64_t>(const J& j) { return j.is_number_integer(); }
template <> bool is<double>(const J& j) { return j.is_number_float(); }
template <> bool is<bool>(const J& j) { return j.is_boolean(); }
template <> bool is<string>(const J& j) { return j.is_string(); }
template <class T, class F> static void scalar(Ctx& c, const J* j, const string& key, F f, T junk, const char* tn) {
    T v = junk; Status s = f(key.c_str(), v);
    bool want = j && is<T>(*j);
    MC_CHECK(c, s.ok() == want, "scalar", "reading " << key << " as " << tn << " from " << (j ? j->dump() : "nothing") << " gives " << s);
    MC_CHECK(c, v == (want ? j->get<T>() : junk), "scalar", "reading " << key << " as " << tn << " from " << (j ? j->dump() : "nothing") << " left the wrong value behind, status " << s);
    c.step();
}
template <class T, class F> static void array(Ctx& c, const J* j, const string& key, F f, vector<T> junk, const char* tn) {
    vector<T> v = junk, want; Status s = f(key.c_str(), v);
    bool ok = j && j->is_array();
    if (ok) for (auto& e : *j) { T t; if (!elem(e, t)) { ok = false; break; } want.push_back(t); }
    MC_CHECK(c, s.ok() == ok, "array", "reading " << key << " as " << tn << " array from " << (j ? j->dump() : "nothing") << " gives " << s);
    MC_CHECK(c, v == (ok ? want : junk), "array", "reading " << key << " as " << tn << " array from " << (j ? j->dump() : "nothing") << " into one of " << junk.size() << " elements leaves " << v.size() << ", status " << s);
    c.step();
}
static void lookUp(Ctx& c, const Configuration& f, const J& doc, const string& key) {
    const J* j = doc.contains(key) ? &doc[key] : nullptr;
    scalar<int64_t>(c, j, key, [&](const char* k, int64_t& v) { return f.fetchAsInt(k, v); }, 77, "integer");
    scalar<double>(c, j, key, [&](const char* k, double& v) { return f.fetchAsDouble(k, v); }, 7.25, "double");
    scalar<bool>(c, j, key, [&](const char* k, bool& v) { return f.fetchAsBool(k, v); }, true, "boolean");
    scalar<bool>(c, j, key, [&](const char* k, bool& v) { return f.fetchAsBool(k, v); }, false, "boolean");
    scalar<string>(c, j, key, [&](const char* k, string& v) { return f.fetchAsString(k, v); }, "junk", "string");
    for (int n = 0; n < 2; ++n) {
        array<int64_t>(c, j, key, [&](const char* k, vector<int64_t>& v) { return f.fetchAsIntArray(k, v); }, vector<int64_t>(n * 2, 5), "integer");
        array<double>(c, j, key, [&](const char* k, vector<double>& v) { return f.fetchAsDoubleArray(k, v); }, vector<double>(n * 2, 5.5), "double");
        array<bool>(c, j, key, [&](const char* k, vector<bool>& v) { return f.fetchAsBoolArray(k, v); }, vector<bool>(n * 2, true), "boolean");
        array<string>(c, j, key, [&](const char* k, vector<string>& v) { return f.fetchAsStringArray(k, v); }, vector<string>(n * 2, "junk"), "string");
    }
    Configuration sub; if (sub.upsertStringField("old", "x").ok() == false) c.fail("upsert", "an empty configuration refuses a new string");
    Status s = f.fetchAsSubConf(key.c_str(), sub); bool want = j && j->is_object();
    MC_CHECK(c, s.ok() == want, "sub", "reading " << key << " as object from " << (j ? j->dump() : "nothing") << " gives " << s);
    holds(c, sub, want ? *j : J::object({{"old", "x"}}), "reading " + key + " as object");
    c.step();
}
static void fetching(Ctx& c) {
    auto& V = values(); J doc = J::object();
    static const vector<string> keys = {"k", "", "other", "\xc3\xa9 \"k\""};
    string key = c.pick(keys); doc[key] = c.pick(V);
    if (c.flip()) doc["other2"] = c.pick(V);
    Configuration f; Status s = f.parseFromString(doc.dump());
    MC_CHECK(c, s.ok(), "parse", "parsing " << doc.dump() << " gives " << s);
    holds(c, f, doc, "after parsing");
    for (auto& k : {key, string("other2"), string("missing"), string(key + "x"), string("K")}) lookUp(c, f, doc, k);
    holds(c, f, doc, "after reading all items");
    for (int pretty = 0; pretty < 2; ++pretty) {
        string t = pretty ? f.dumpToPrettyString() : f.dumpToString();
        J back = J::parse(t, nullptr, false);
        MC_CHECK(c, !back.is_discarded() && near(back, doc), "dump", "the configuration " << doc.dump() << " is written as " << t);
        Configuration g; Status s2 = g.parseFromString(t); MC_CHECK(c, s2.ok(), "dump", "the written text " << t << " is not read: " << s2);
        holds(c, g, back, "after writing and reading"); c.step(2);
    }
    c.state(doc.dump()); c.outcome(doc[key].type_name());
}
// ---- histories of two configurations
static void histories(Ctx& c) {
    static const vector<J> docs = {J::object({{"a", 1}, {"s", "text"}, {"o", J::object({{"s", "inner"}, {"b", true}})}}), J::object({{"s", 2.5}, {"o", J::object()}}), J::object()};
    static const vector<string> bad = {"", "{", "[1]", "3", "\"s\"", "null", "{\"a\":1", "{\"a\" 1}", "{} x", "{a:1}", "{\"a\":}", "{\"a\":1,}", "\"k\":\"v\"", "{'a':1}"};
    std::unique_ptr<Configuration> f[2]; J m[2] = {J::object(), J::object()}; string log;
    f[0].reset(new Configuration()); f[1].reset(new Configuration(folly::parseJson(docs[1].dump()))); m[1] = docs[1];
    int depth = c.thorough() ? 5 : 4; int last = -1;
    for (int i = 0; i < depth; ++i) {
        int w = i == 0 ? 0 : c.choose(2); auto& x = *f[w]; auto& mx = m[w];
        int k = c.choose(8); string what;
        switch (k) {
            case 0: { auto& d = c.pick(docs); Status s = x.parseFromString(d.dump()); MC_CHECK(c, s.ok(), "parse", "parsing " << d.dump() << " gives " << s); mx = d; what = "parse " + d.dump(); break; }
            case 1: { auto& t = i + 1 < depth && !c.thorough() ? bad[c.choose(3)] : c.pick(bad); Status s = x.parseFromString(t); what = "parse illegal " + t; MC_CHECK(c, !s.ok(), "illegal", "parsing the illegal text '" << t << "' succeeded"); break; }
            case 2: { string key = c.choose(2) ? "s" : "new"; bool ok = !mx.contains(key) || mx[key].is_string(); Status s = x.upsertStringField(key.c_str(), "up" + std::to_string(i)); what = "update " + key; MC_CHECK(c, s.ok() == ok, "upsert", "updating " << key << " of " << mx.dump() << " gives " << s); if (ok) mx[key] = "up" + std::to_string(i); break; }
            case 3: { string key = c.choose(2) ? "o" : "s"; bool ok = mx.contains(key) && mx[key].is_object(); Status s = x.fetchAsSubConf(key.c_str(), *f[1 - w]); what = "object " + key + " into the other"; MC_CHECK(c, s.ok() == ok, "sub", "reading object " << key << " of " << mx.dump() << " gives " << s); if (ok) m[1 - w] = mx[key]; break; }
            case 4: { bool ok = mx.contains("o") && mx["o"].is_object(); Status s = x.fetchAsSubConf("o", x); what = "object o into itself"; MC_CHECK(c, s.ok() == ok, "sub", "reading object o of " << mx.dump() << " into itself gives " << s); if (ok) { J t = mx["o"]; mx = t; } break; }
            case 5: { Status s = x.parseFromString(f[1 - w]->dumpToString()); what = "parse the other's text"; MC_CHECK(c, s.ok(), "dump", "the text " << f[1 - w]->dumpToString() << " is refused: " << s); mx = m[1 - w]; break; }
            case 6: { int at = c.choose(2), n = 0; what = "interrupted walk"; Status s = x.forEachItem([&](const string&, const folly::dynamic&) { if (n++ == at) throw std::runtime_error("stop %s"); }); bool fails = (int)mx.size() > at; MC_CHECK(c, s.ok() == !fails && n == (fails ? at + 1 : (int)mx.size()), "walk", "a walk over " << mx.dump() << " stopped at " << at << " gives " << s << " after " << n);
                      n = 0; s = x.forEachKey([&](const string&) { if (n++ == at) throw std::runtime_error("stop"); }); MC_CHECK(c, s.ok() == !fails && n == (fails ? at + 1 : (int)mx.size()), "walk", "a walk over the keys of " << mx.dump() << " stopped at " << at << " gives " << s << " after " << n); break; }
            default: { auto& d = docs[0]; string p = file("# c\n" + d.dump()); Status s = x.parseFromFile(p); MC_CHECK(c, s.ok(), "file", "reading a file gives " << s); mx = d; what = "parse file"; break; }
        }
        MC_LOG(c, w << ": " << what);
        for (int y = 0; y < 2; ++y) holds(c, *f[y], m[y], "configuration " + std::to_string(y) + " after '" + what + "' on " + std::to_string(w));
        c.step(); c.state(m[0].dump() + "|" + m[1].dump()); last = k;
    }
    c.outcome(std::to_string(last));
}
// ---- layout and comments
static const vector<string> kGaps = {"", " ", "\n\t", "// c\n", "# \"c\n", "//\"{}\r", " #//\n //#\n"};
static void layout(Ctx& c) {
    static const vector<string> texts = {"v", "http://x/y", "a#b", "q\\\"//", "\\\\", "#", "//", "\\\\\\\"#"};
    string k = c.pick(texts), v = c.pick(texts); bool num = c.flip();
    vector<string> tok = {"{", "\"" + k + "\"", ":", num ? "-12" : "\"" + v + "\"", "}"};
    // at most two (three) gaps hold something
    string t; int used = 0, most = c.thorough() ? 3 : 2;
    for (size_t i = 0; i <= tok.size(); ++i) { int g = used < most ? c.choose(kGaps.size() + (i == tok.size())) : 0; if (g) ++used; t += g == (int)kGaps.size() ? "// no line end" : kGaps[g]; if (i < tok.size()) t += tok[i]; }
    J want = J::parse("{\"" + k + "\":" + (num ? "-12" : "\"" + v + "\"") + "}");
    Configuration f; Status s = f.parseFromFile(file(t));
    MC_CHECK(c, s.ok(), "layout", "a file holding " << mc::hex(t) << " (" << t << ") is refused: " << s);
    holds(c, f, want, "after reading a file holding " + t);
    c.step(); c.state(t); c.outcome(std::to_string(used));
}
// every document with a structural character lost, doubled or cut off
static void damaged(Ctx& c) {
    static const vector<string> docs = {"{\"a\":1,\"b\":[true,\"x\"],\"c\":{\"d\":null}}", "{}", "{\"a\":\"b\"}", "{\"a\":[[],{}],\"b\":-1.5}"};
    string t = c.pick(docs); int kind = c.choose(3); int at = c.choose(t.size()); string was = t;
    if (kind == 0) t = t.substr(0, at); else { if (isdigit((unsigned char)t[at]) || t[at] == '-' || t[at] == '.') throw mc::Abandon(); if (kind == 1) t.erase(at, 1); else t.insert(at, 1, t[at]); }
    J j = J::parse(t, nullptr, false); bool ok = !j.is_discarded() && j.is_object();
    bool viaFile = c.flip();
    Configuration f; use(f.upsertStringField("old", "x"));
    Status s = viaFile ? f.parseFromFile(file(t)) : f.parseFromString(t);
    MC_CHECK(c, s.ok() == ok, "illegal", "parsing " << t << " gives " << s);
    holds(c, f, ok ? j : J::object({{"old", "x"}}), "after parsing " + t);
    c.step(); c.state(t); c.outcome(std::to_string(ok));
}
// ---- files: reads of every length, interrupted or failing
static void reading(Ctx& c) {
    int size = c.choose(3); J doc = J::object({{"a", 1}, {"s", "x//y"}});
    string t = doc.dump() + "// end";
    if (size == 1) { doc["long"] = string(9000, 'y'); t = doc.dump(); }
    if (size == 2) { doc["p"] = string(4096 - 15 - (int)doc.dump().size() + 9, 'y'); t = doc.dump(); while (t.size() < 4096) t += ' '; }
    string p = file(t); Configuration f; use(f.upsertStringField("old", "x"));
    int fd0 = fdCount(); g_c = &c; g_budget = c.thorough() ? 7 : 5; g_failed = 0; g_mode = true;
    g_active = true; Status s = f.parseFromFile(p); g_active = false; g_mode = false;
    MC_CHECK(c, s.ok() == !g_failed, "read", "reading a file of " << t.size() << " bytes gives " << s << " with " << g_failed << " failed reads");
    holds(c, f, s.ok() ? doc : J::object({{"old", "x"}}), "after reading a file in pieces");
    MC_CHECK(c, fdCount() == fd0, "descriptor", "a descriptor is left open");
    c.step(); c.state(size * 100 + g_budget * 2 + g_failed); c.outcome(std::to_string(s.ok()));
}
static void unreadable(Ctx& c) {
    int k = c.choose(9); string p = g_dir + "/missing"; bool ok = false;
    if (k == 1) p = g_dir; if (k == 2) p = ""; if (k >= 3) p = file(k == 3 ? "" : k == 4 ? "# only comments\n" : k == 5 ? string("{\"a\":1}\0,", 9) : "{\"a\":1}");
    if (k == 6) { g_openErr = EACCES; } if (k == 7) g_openErr = EMFILE; if (k == 8) { g_openErr = EPERM; }
    Configuration f; use(f.upsertStringField("old", "x")); int fd0 = fdCount();
    g_active = true; Status s = f.parseFromFile(p); g_active = false; g_openErr = 0;
    MC_CHECK(c, s.ok() == ok, "unreadable", "reading case " << k << " gives " << s);
    if (k == 0) MC_CHECK(c, s.code() == Status::NoSuchFile().code(), "unreadable", "a missing file gives " << s);
    holds(c, f, J::object({{"old", "x"}}), "after a failed read");
    MC_CHECK(c, fdCount() == fd0, "descriptor", "a descriptor is left open");
    c.step(); c.state(k); c.outcome(s.toString().substr(0, 12));
}

int main(int argc, char** argv) {
    char tmp[] = "/tmp/mc_c34.XXXXXX"; if (!mkdtemp(tmp)) return 2; g_dir = tmp;
    vector<mc::Scenario> sc;
    sc.push_back({"fetching", fetching, false, "4 keys x 41 values, alone and beside another of 41 values: every read of 5 keys into empty and used outputs, written and read back in both forms"});
    sc.push_back({"histories", histories, false, "all histories of 4 (5) of 8 kinds of operations on two configurations"});
    sc.push_back({"layout", layout, false, "8 x 9 contents with up to 2 (3) of 6 gaps holding one of 6 spaces and comments, from a file"});
    sc.push_back({"damaged", damaged, false, "4 documents cut at, or with a lost or doubled character at every place, from text and file"});
    sc.push_back({"reading", reading, false, "3 files, the first 5 (7) reads whole, short, interrupted or failing"});
    sc.push_back({"unreadable", unreadable, false, "9 unreadable files"});
    int rc = mc::run(argc, argv, "C34", sc, {"folly's JSON reader and writer are replaced by a stand-in with their documented behaviour (a number with fraction zero is written as an integer)"});
    DIR* d = opendir(tmp); while (auto e = readdir(d)) if (e->d_name[0] == 'f') unlink((g_dir + "/" + e->d_name).c_str()); closedir(d); rmdir(tmp);
    return rc;
}
