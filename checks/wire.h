// An encoder and a decoder of the wire formats that know only the published interface definition (idl_tables.h is generated
// from it), over trees of fields; and the tests common to every type that has hand-written wire code.
#pragma once
#include "mc.h"
#include "idl_tables.h"
#include <thrift/lib/cpp2/GeneratedCodeHelper.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace wire {
enum Proto { COMPACT, BINARY, NAMED };
static const char* const protoName[] = {"compact", "binary", "named"};
struct Fld;
struct Node {
    std::string type;             // as in the interface definition
    int64_t i = 0; double d = 0; std::string s;
    std::vector<Node> kids;       // elements; of a map, keys and values in turn
    std::vector<Fld> fields;
};
struct Fld { std::string name; int id; Node n; };

struct Bad { std::string what; };
inline const IdlField* field(const std::string& st, int id, const std::string* name = nullptr) {
    for (auto& f : IDL) if (st == f.type_ && (name ? *name == f.name : id == f.id)) return &f;
    return nullptr;
}
inline std::vector<const IdlField*> fieldsOf(const std::string& st) { std::vector<const IdlField*> r; for (auto& f : IDL) if (st == f.type_) r.push_back(&f); return r; }
inline bool isUnion(const std::string& st) { auto f = fieldsOf(st); return !f.empty() && f[0]->req == 3; }
inline bool has(const std::string& t, const char* p) { return t.compare(0, strlen(p), p) == 0; }
inline std::string structOf(const std::string& t) { return t.substr(7); }
inline std::vector<std::string> args(const std::string& t) {    // of list<..>, set<..>, map<..,..>
    size_t b = t.find('<') + 1, e = t.size() - 1; int depth = 0; std::vector<std::string> r; std::string cur;
    for (size_t i = b; i < e; ++i) { if (t[i] == '<') ++depth; if (t[i] == '>') --depth; if (t[i] == ',' && !depth) { r.push_back(cur); cur.clear(); } else cur += t[i]; }
    r.push_back(cur); return r;
}
// ---- building trees ----
inline Node num(int64_t v) { Node n; n.type = "?num"; n.i = v; return n; }
inline Node dbl(double v) { Node n; n.type = "double"; n.d = v; return n; }
inline Node str(std::string v) { Node n; n.type = "binary"; n.s = std::move(v); return n; }
inline Node seq(std::vector<Node> k) { Node n; n.type = "?seq"; n.kids = std::move(k); return n; }
inline void settle(Node& n, const std::string& type) {
    if (n.type == "?num") { if (type != "bool" && type != "byte" && type != "i16" && type != "i32" && type != "i64") throw Bad{"a number where the interface definition has " + type}; n.type = type; return; }
    if (n.type == "?seq") {
        n.type = type; auto a = args(type);
        for (size_t i = 0; i < n.kids.size(); ++i) settle(n.kids[i], a[i % a.size()]);
        return;
    }
    if (n.type != type) throw Bad{n.type + " where the interface definition has " + type};
}
struct Struct {
    Node n;
    explicit Struct(const char* st) { n.type = std::string("struct:") + st; }
    Struct& f(const char* name, Node v) {
        std::string nm = name; auto fd = field(structOf(n.type), 0, &nm);
        if (!fd) throw Bad{"no field " + nm + " in " + n.type};
        settle(v, fd->type); n.fields.push_back({nm, fd->id, std::move(v)});
        return *this;
    }
    operator Node() const { return n; }
};
inline bool anyOrder(const std::string& t) { return has(t, "set<") || has(t, "map<"); }
inline std::string quote(const std::string& s) {
    if (s.size() > 200) { uint64_t h = 14695981039346656037ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return "'(" + std::to_string(s.size()) + " bytes, hash " + std::to_string(h) + ")'"; }
    std::string r = "'"; char b[8]; for (unsigned char c : s) if (c < 32 || c > 126 || c == '\'' || c == '\\') { snprintf(b, sizeof b, "\\%02x", c); r += b; } else r += (char)c; return r + "'";
}
inline std::string canon(const Node& n) {
    if (n.type == "double") { char b[40]; if (std::isnan(n.d)) return "nan"; snprintf(b, sizeof b, "%.17g", n.d); return b; }
    if (n.type == "binary") return quote(n.s);
    if (has(n.type, "struct:")) {
        std::vector<const Fld*> p; for (auto& f : n.fields) p.push_back(&f);
        std::stable_sort(p.begin(), p.end(), [](const Fld* a, const Fld* b) { return a->id < b->id; });
        std::string r = structOf(n.type) + "{"; for (auto f : p) r += (r.back() == '{' ? "" : " ") + f->name + "=" + canon(f->n); return r + "}";
    }
    if (n.type.find('<') != std::string::npos) {
        std::vector<std::string> p; bool m = has(n.type, "map<");
        for (size_t i = 0; i < n.kids.size(); ++i) { std::string e = canon(n.kids[i]); if (m) e += ":" + canon(n.kids[++i]); p.push_back(e); }
        if (anyOrder(n.type)) std::sort(p.begin(), p.end());
        std::string r = "["; for (auto& e : p) r += (r.size() > 1 ? "," : "") + e; return r + "]";
    }
    return std::to_string(n.i);
}
// ---- encoding ----
enum W { STOP = 0, BOOL = 2, BYTE = 3, DOUBLE = 4, I16 = 6, I32 = 8, I64 = 10, STRING = 11, STRUCT = 12, MAP = 13, SET = 14, LIST = 15 };
inline int wt(const std::string& t) {
    if (t == "bool") return BOOL; if (t == "byte") return BYTE; if (t == "i16") return I16; if (t == "i32") return I32; if (t == "i64") return I64; if (t == "double") return DOUBLE; if (t == "binary") return STRING;
    if (has(t, "struct:")) return STRUCT; if (has(t, "list<")) return LIST; if (has(t, "set<")) return SET; if (has(t, "map<")) return MAP; throw Bad{"type " + t};
}
inline int compactType(int w) { switch (w) { case BOOL: return 1; case BYTE: return 3; case I16: return 4; case I32: return 5; case I64: return 6; case DOUBLE: return 7; case STRING: return 8; case LIST: return 9; case SET: return 10; case MAP: return 11; case STRUCT: return 12; } return 0; }
struct Enc {
    Proto p; std::string o;
    void u8(unsigned c) { o += (char)c; }
    void be(uint64_t v, int n) { while (n--) u8((v >> (8 * n)) & 255); }
    void vi(uint64_t v) { while (v > 127) { u8((v & 127) | 128); v >>= 7; } u8((unsigned)v); }
    void zz(int64_t v) { vi(v < 0 ? ((uint64_t)(-(v + 1)) << 1) + 1 : (uint64_t)v << 1); }
    void length(uint64_t n) { if (p == COMPACT) vi(n); else be(n, 4); }
    void val(const Node& n) {
        switch (wt(n.type)) {
            case BOOL: if (p == COMPACT) u8(n.i ? 1 : 2); else u8(n.i ? 1 : 0); break;
            case BYTE: u8((uint8_t)n.i); break;
            case I16: if (p == COMPACT) zz(n.i); else be((uint64_t)n.i, 2); break;
            case I32: if (p == COMPACT) zz(n.i); else be((uint64_t)n.i, 4); break;
            case I64: if (p == COMPACT) zz(n.i); else be((uint64_t)n.i, 8); break;
            case DOUBLE: { uint64_t x; memcpy(&x, &n.d, 8); be(x, 8); break; }
            case STRING: length(n.s.size()); o += n.s; break;
            case LIST: case SET: {
                int et = wt(args(n.type)[0]); size_t k = n.kids.size();
                if (p == COMPACT) { if (k < 15) u8((unsigned)(k << 4) | compactType(et)); else { u8(0xf0 | compactType(et)); vi(k); } } else { u8(et); be(k, 4); }
                for (auto& e : n.kids) val(e); break;
            }
            case MAP: {
                auto a = args(n.type); size_t k = n.kids.size() / 2;
                if (p == COMPACT) { vi(k); if (k) u8(compactType(wt(a[0])) << 4 | compactType(wt(a[1]))); } else { u8(wt(a[0])); u8(wt(a[1])); be(k, 4); }
                for (auto& e : n.kids) val(e); break;
            }
            case STRUCT: {
                int last = 0;
                for (auto& f : n.fields) {
                    int w = wt(f.n.type);
                    if (p == BINARY) { u8(w); be((uint16_t)f.id, 2); }
                    else if (p == NAMED) { u8(w); u8((unsigned)f.name.size()); o += f.name; }
                    else {
                        int ct = w == BOOL ? (f.n.i ? 1 : 2) : compactType(w);
                        if (f.id > last && f.id - last <= 15) u8((unsigned)(f.id - last) << 4 | ct); else { u8(ct); zz(f.id); }
                        last = f.id;
                        if (w == BOOL) continue;
                    }
                    val(f.n);
                }
                u8(0);
            }
        }
    }
};
inline std::string encode(const Node& n, Proto p) { Enc e{p, ""}; e.val(n); return e.o; }
// ---- decoding, guided by the interface definition ----
struct Dec {
    Proto p; const std::string& s; size_t i = 0;
    unsigned u8() { if (i == s.size()) throw Bad{"the bytes end early"}; return (unsigned char)s[i++]; }
    uint64_t be(int n) { uint64_t v = 0; while (n--) v = v << 8 | u8(); return v; }
    uint64_t vi() { uint64_t v = 0; for (int sh = 0; sh < 64; sh += 7) { unsigned c = u8(); v |= (uint64_t)(c & 127) << sh; if (c < 128) return v; } throw Bad{"a number of more than 10 bytes"}; }
    int64_t zz() { uint64_t v = vi(); return v & 1 ? -(int64_t)(v >> 1) - 1 : (int64_t)(v >> 1); }
    void want(int got, const std::string& t) { int w = wt(t); if (p == COMPACT ? got != compactType(w) && !(w == BOOL && got == 2) : got != w) throw Bad{"wire type " + std::to_string(got) + " for " + t}; }
    Node val(const std::string& t) {
        Node n; n.type = t;
        switch (wt(t)) {
            case BOOL: { unsigned c = u8(); n.i = c == 1; if (c > (p == COMPACT ? 2 : 1)) throw Bad{"bool"}; break; }
            case BYTE: n.i = (int8_t)u8(); break;
            case I16: n.i = p == COMPACT ? zz() : (int16_t)be(2); break;
            case I32: n.i = p == COMPACT ? zz() : (int32_t)be(4); break;
            case I64: n.i = p == COMPACT ? zz() : (int64_t)be(8); break;
            case DOUBLE: { uint64_t x = be(8); memcpy(&n.d, &x, 8); break; }
            case STRING: { uint64_t k = p == COMPACT ? vi() : be(4); if (k > s.size() - i) throw Bad{"text beyond the end"}; n.s = s.substr(i, k); i += k; break; }
            case LIST: case SET: {
                auto a = args(t)[0]; uint64_t k; unsigned et;
                if (p == COMPACT) { unsigned c = u8(); et = c & 15; k = c >> 4; if (k == 15) k = vi(); } else { et = u8(); k = be(4); }
                want(et, a); if (k > s.size()) throw Bad{"number of elements"};
                while (k--) n.kids.push_back(val(a));
                break;
            }
            case MAP: {
                auto a = args(t); uint64_t k;
                if (p == COMPACT) { k = vi(); if (k) { unsigned c = u8(); want(c >> 4, a[0]); want(c & 15, a[1]); } } else { want(u8(), a[0]); want(u8(), a[1]); k = be(4); }
                if (k > s.size()) throw Bad{"number of entries"};
                while (k--) { n.kids.push_back(val(a[0])); n.kids.push_back(val(a[1])); }
                break;
            }
            case STRUCT: {
                int last = 0; std::string st = structOf(t);
                for (;;) {
                    unsigned c = u8(); if (c == 0) break;
                    const IdlField* f; std::string name; int id = 0; unsigned w = c;
                    if (p == NAMED) { unsigned k = u8(); name = s.substr(i, k); i += k; f = field(st, 0, &name); }
                    else { if (p == BINARY) id = (int16_t)be(2); else { w = c & 15; id = c >> 4 ? last + (int)(c >> 4) : (int)zz(); last = id; } f = field(st, id); }
                    if (!f) throw Bad{"field " + (p == NAMED ? name : std::to_string(id)) + " of " + st + " is not in the interface definition"};
                    want(w, f->type);
                    for (auto& o : n.fields) if (o.id == f->id) throw Bad{std::string("field ") + f->name + " twice"};
                    Fld o{f->name, f->id, {}};
                    if (p == COMPACT && wt(f->type) == BOOL) { o.n.type = f->type; o.n.i = w == 1; } else o.n = val(f->type);
                    n.fields.push_back(std::move(o));
                }
                if (isUnion(st) && n.fields.size() > 1) throw Bad{"two fields of the union " + st};
                for (auto f : fieldsOf(st)) if (f->req == 1) { bool found = false; for (auto& o : n.fields) found = found || o.id == f->id; if (!found) throw Bad{std::string("the required field ") + f->name + " of " + st + " is missing"}; }
            }
        }
        return n;
    }
};
// ---- what a reader must make of a tree with missing, unknown or wrongly typed fields ----
inline std::map<std::string, Node>& defaults() { static std::map<std::string, Node> m; return m; }
struct Missing {};    // a required field
inline Node normal(const Node& n) {
    Node r = n; r.kids.clear(); r.fields.clear();
    for (auto& k : n.kids) r.kids.push_back(normal(k));
    if (has(n.type, "set<")) { std::map<std::string, Node> once; for (auto& k : r.kids) once.emplace(canon(k), k); r.kids.clear(); for (auto& e : once) r.kids.push_back(e.second); }
    if (!has(n.type, "struct:")) return r;
    std::string st = structOf(n.type);
    for (auto f : fieldsOf(st)) {
        const Fld* got = nullptr;
        for (auto& o : n.fields) if (o.id == f->id && wt(o.n.type) == wt(f->type)) got = &o;
        if (got) { r.fields.push_back({f->name, f->id, normal(got->n)}); continue; }
        if (f->req == 1) throw Missing();
        if (f->req == 0) { auto d = defaults().find(st); if (d == defaults().end()) throw Bad{"no default for " + st}; for (auto& o : d->second.fields) if (o.id == f->id) r.fields.push_back(o); }
    }
    return r;
}
inline void structs(Node& n, std::vector<Node*>& out) { if (has(n.type, "struct:")) { out.push_back(&n); for (auto& f : n.fields) structs(f.n, out); } for (auto& k : n.kids) structs(k, out); }
inline std::vector<Node> foreign() {
    std::vector<Node> r; auto add = [&](Node n, const char* t) { settle(n, t); r.push_back(n); };
    add(num(1), "bool"); add(num(0), "bool"); add(num(-7), "byte"); add(num(-300), "i16"); add(num(70000), "i32"); add(num(1LL << 40), "i64"); add(dbl(2.5), "double"); add(str(""), "binary"); add(str("\x00\x0c\x01 foreign"), "binary");
    add(seq({}), "list<i64>"); add(seq({num(1), num(-1)}), "list<i32>"); add(seq({num(1), num(0)}), "list<bool>"); add(seq({str("a")}), "set<binary>"); add(seq({}), "map<binary,i64>"); add(seq({str("k"), num(5)}), "map<binary,i64>"); add(seq({num(1), seq({num(3)})}), "map<i32,list<byte>>");
    Node in; in.type = "struct:foreign"; r.push_back(in); in.fields.push_back({"zy", 1, r[0]}); in.fields.push_back({"zx", 40, r[8]}); Node in2 = in; in2.fields.push_back({"zw", 3, in}); r.push_back(in2);
    Node l; l.type = "list<struct:foreign>"; l.kids = {in, in2}; r.push_back(l);
    Node v; v.type = "struct:Value"; r.push_back(v);
    return r;
}
// ---- the tests ----
template <class P, class T> uint32_t sizeOf(const T& t) { P p; return apache::thrift::Cpp2Ops<T>::serializedSize(&p, &t); }
template <class P, class T> uint32_t sizeZC(const T& t) { P p; return apache::thrift::Cpp2Ops<T>::serializedSizeZC(&p, &t); }
template <Proto P> struct Ser;
template <> struct Ser<COMPACT> { typedef apache::thrift::CompactSerializer S; };
template <> struct Ser<BINARY> { typedef apache::thrift::BinarySerializer S; };
template <> struct Ser<NAMED> { typedef apache::thrift::NamedSerializer S; };
struct Result { bool threw = false; std::string what; size_t used = 0; std::string canon; bool same = true; };
// one type with wire code
struct Type {
    std::string name;
    int values;
    std::function<std::string(int)> describe;
    std::function<Node(int, bool wire)> node;                       // content of a value, as kept or as put on the wire
    std::function<std::string(int, Proto, uint32_t& ret, uint32_t& size, uint32_t& zc)> write;
    std::function<Result(Proto, const std::string&, int dirty, int equalTo)> read;    // dirty: index of the value read over, -1 for new objects in dirty memory, -2 the same with nothing after the bytes; equalTo: index the result must == , or -1
};
template <class T, class Val, class NodeOf, class Same> Type makeType(const char* name, int values, std::function<std::string(int)> describe, Val val, NodeOf nodeOf, Same same) {
    Type t; t.name = name; t.values = values; t.describe = describe;
    t.node = [val, nodeOf](int k, bool w) { T v = val(k); return nodeOf(v, w); };
    t.write = [val](int k, Proto p, uint32_t& ret, uint32_t& size, uint32_t& zc) {
        T v = val(k); std::string o;
        auto go = [&](auto ser) { typedef decltype(ser) S; ret = S::serialize(v, &o); size = sizeOf<typename S::ProtocolWriter>(v); zc = sizeZC<typename S::ProtocolWriter>(v); };
        if (p == COMPACT) go(Ser<COMPACT>::S()); else if (p == BINARY) go(Ser<BINARY>::S()); else go(Ser<NAMED>::S());
        return o;
    };
    t.read = [val, nodeOf, same](Proto p, const std::string& in, int dirty, int equalTo) {
        Result r;
        auto one = [&](T& v) {
            std::string bytes(in); if (dirty != -2) bytes += "\x05trailing";       // what follows is not this value's
            folly::StringPiece sp(bytes);
            try {
                if (p == COMPACT) r.used = Ser<COMPACT>::S::deserialize(sp, v); else if (p == BINARY) r.used = Ser<BINARY>::S::deserialize(sp, v); else r.used = Ser<NAMED>::S::deserialize(sp, v);
            } catch (const apache::thrift::TException& e) { r.threw = true; r.what = e.what(); return; }
            std::string c = canon(nodeOf(v, false));
            if (r.canon.empty()) r.canon = c; else if (r.canon != c) { r.same = false; r.what = c; }
            if (equalTo >= 0) { T w = val(equalTo); if (!same(v, w)) { r.same = false; r.what = "the result differs by =="; } }
        };
        if (dirty >= 0) { T v = val(dirty); one(v); return r; }
        for (int poison : {0x00, 0xa5, 0x5a}) {
            alignas(T) static unsigned char mem[sizeof(T)];
            memset(mem, poison, sizeof mem); asm volatile("" : : "r"(mem) : "memory");
            T* v = new (mem) T; struct D { T* v; ~D() { v->~T(); } } d{v};
            one(*v);
        }
        return r;
    };
    return t;
}
// executions of one type: every value, protocol and kind of test
inline void test(mc::Ctx& c, const Type& t, int maxEdits, int full = 1 << 30) {     // from value number `full` on, reading and writing only
    int k = c.choose(t.values, "value"); Proto p = (Proto)c.choose(3, "protocol"); int kind = c.choose(k < full ? 5 : 2, "test");
    MC_LOG(c, t.name << " " << t.describe(k) << ", " << protoName[p] << " protocol");
    Node keep = t.node(k, false); std::string want = canon(keep);
    auto about = [&] { return t.name + " " + t.describe(k) + " in the " + protoName[p] + " protocol: "; };
    auto shows = [&](const std::string& in) { std::string h; char b[4]; for (unsigned char ch : in) { if (h.size() > 200) { h += ".."; break; } snprintf(b, sizeof b, "%02x", ch); h += b; } return h; };
    if (kind == 0) {      // what is written, read by a peer
        uint32_t ret, size, zc; std::string o = t.write(k, p, ret, size, zc);
        MC_LOG(c, "writes " << shows(o));
        Dec d{p, o};
        try {
            Node n = d.val("struct:" + t.name); std::string got = canon(n), exp = canon(t.node(k, true));
            MC_CHECK(c, d.i == o.size(), "surplus bytes", about() << "a peer reads " << d.i << " of the " << o.size() << " bytes written");
            MC_CHECK(c, got == exp, "content " + t.name, about() << "a peer reads " << got << ", expected " << exp);
        } catch (const Bad& b) { c.fail("format " + t.name, about() + "a peer cannot read " + shows(o) + ": " + b.what); }
        MC_CHECK(c, ret == o.size(), "written count", about() << "write returns " << ret << " for " << o.size() << " bytes");
        MC_CHECK(c, size >= o.size(), "announced size " + t.name, about() << "announced size " << size << ", written " << o.size());
        MC_CHECK(c, zc <= size, "announced size without shared text", about() << "size without shared text " << zc << " exceeds the size " << size);
        c.step(); c.state(std::to_string(p) + o); c.outcome("written");
        // and read back by itself
        Result r = t.read(p, o, -1, -1);
        MC_CHECK(c, !r.threw, "own bytes rejected", about() << "reading back throws " << r.what);
        MC_CHECK(c, r.threw || r.used == o.size(), "own bytes consumed", about() << "reading back consumes " << r.used << " of " << o.size() << " bytes");
        MC_CHECK(c, r.threw || (r.same && r.canon == canon(t.node(k, true))), "own bytes", about() << "reading back gives " << r.canon << (r.same ? "" : " or " + r.what) << ", expected " << canon(t.node(k, true)));
        return;
    }
    if (kind == 1) {      // what a peer writes, in any order, over anything
        Node rev = keep; std::vector<Node*> all; structs(rev, all); for (size_t i = all.size(); i-- > 0;) std::reverse(all[i]->fields.begin(), all[i]->fields.end());
        for (int turn = 0; turn < 2; ++turn) {
            std::string o = encode(turn ? rev : keep, p);
            for (int dirty = -1; dirty < t.values; dirty += std::max(1, t.values / 6)) {
                if (dirty >= 0) {   // absent optional parts keep what was there: read over an object only if nothing optional is absent
                    bool full = true; std::vector<Node*> a; structs(keep, a);
                    if (!a.empty()) { auto s = a[0]; for (auto f : fieldsOf(structOf(s->type))) if (f->req == 2) { bool f2 = false; for (auto& o2 : s->fields) f2 = f2 || o2.id == f->id; full = full && f2; } }
                    if (!full) continue;
                }
                Result r = t.read(p, o, dirty, k);
                MC_LOG(c, (turn ? "reversed " : "") << shows(o) << " over " << (dirty < 0 ? "a new object" : t.describe(dirty)) << " gives " << (r.threw ? r.what : r.canon));
                MC_CHECK(c, !r.threw && r.used == o.size() && r.same && r.canon == want, std::string(turn ? "reversed " : "") + "peer's bytes " + t.name,
                         about() << "read from a peer's bytes " << shows(o) << " over " << (dirty < 0 ? "a new object" : t.describe(dirty)) << ": " << (r.threw ? "throws " + r.what : r.canon + (r.same ? "" : " or " + r.what)) << ", consumed " << r.used << " of " << o.size() << ", expected " << want);
                c.step();
            }
            c.state(std::to_string(p) + o);
        }
        c.outcome("read");
        return;
    }
    auto expect = [&](const Node& edited, const std::string& what, const std::string& key) {
        std::string o = encode(edited, p), exp; bool missing = false;
        try { exp = canon(normal(edited)); } catch (const Missing&) { missing = true; }
        Result r = t.read(p, o, -1, -1);
        MC_LOG(c, what << ": " << (r.threw ? "throws " + r.what : r.canon));
        if (missing) MC_CHECK(c, r.threw, "required " + key, about() << what << ": accepted without a required field, as " << r.canon);
        else MC_CHECK(c, !r.threw && r.same && r.canon == exp && r.used == o.size(), key, about() << what << ": " << (r.threw ? "throws " + r.what : r.canon + (r.same ? "" : " or, in other memory, " + r.what)) << ", consumed " << r.used << " of " << o.size() << ", expected " << exp);
        c.step();
    };
    Node edit = keep; std::vector<Node*> all; structs(edit, all);
    int many = std::min((int)all.size(), maxEdits);
    auto change = [&](int at, std::vector<Fld> fields, const std::string& what, const std::string& key) {     // the tree with the fields of one structure replaced
        edit = keep; all.clear(); structs(edit, all); all[at]->fields = std::move(fields); expect(edit, what, key);
    };
    for (int at = 0; at < many; ++at) {
        edit = keep; all.clear(); structs(edit, all);
        std::vector<Fld> saved = all[at]->fields; std::string st = structOf(all[at]->type); bool u = isUnion(st); int next = fieldsOf(st).back()->id + 1;
        if (kind == 2) {      // each field absent, and all fields of the structure
            for (size_t i = 0; i < saved.size(); ++i) { auto f = saved; f.erase(f.begin() + i); change(at, f, "without " + st + "." + saved[i].name, "absent " + st + "." + saved[i].name); }
            change(at, {}, "with an empty " + st, "empty " + st);
        }
        if (kind == 3) {      // foreign fields everywhere, fields of other types
            static const std::vector<Node> fs = foreign();
            if (!u || saved.empty())      // a union holds one field
                for (size_t pos = 0; pos <= saved.size(); ++pos)
                    for (size_t j = 0; j < fs.size(); ++j)
                        for (int id : {next, 100, -5, 32767}) {      // the next number, and numbers far off
                            if (id != next && j % 4) continue;
                            auto f = saved; f.insert(f.begin() + pos, Fld{"zz" + std::to_string(id), id, fs[j]});
                            change(at, f, "with a foreign " + fs[j].type + " field " + std::to_string(id) + " at position " + std::to_string(pos) + " of " + st, "foreign field in " + st);
                        }
            if (p == NAMED) continue;
            std::vector<Fld> base = saved; if (u) { base.clear(); for (auto f : fieldsOf(st)) base.push_back({f->name, f->id, {}}); }
            for (size_t i = 0; i < base.size(); ++i)
                for (size_t j = 0; j < fs.size(); ++j) {
                    if (wt(fs[j].type) == wt(field(st, base[i].id)->type)) continue;
                    auto f = saved; if (u) f = {{base[i].name, base[i].id, fs[j]}}; else f[i].n = fs[j];
                    change(at, f, "with a " + fs[j].type + " as " + st + "." + base[i].name, "foreign type of " + st + "." + base[i].name);
                }
        }
    }
    if (kind < 4) { c.outcome(kind == 2 ? "fields absent" : "fields added"); return; }
    // every truncated prefix: never accepted
    std::string o = encode(keep, p);
    size_t stepBy = o.size() > 2000 ? o.size() / 500 : 1;
    for (size_t n = 0; n < o.size(); n += stepBy) {
        Result r = t.read(p, o.substr(0, n), -2, -1);
        MC_CHECK(c, r.threw, "truncated " + t.name, about() << "the first " << n << " of " << o.size() << " bytes are accepted as " << r.canon);
        c.step();
    }
    c.outcome("truncated");
}
}  // namespace wire
