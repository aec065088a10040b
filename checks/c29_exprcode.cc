// C29: every kind of expression with every option, in every operand place of every other kind: stored and read back, copied,
// compared with every other, and changed after copying.
#include "mc.h"
#include "exprs.h"
#include "wirevals.h"
using mc::Ctx; using namespace exprs;

// the stored form, written from its description: a byte of kind, names as length and bytes, sizes as 8 bytes, values in the compact protocol
static void put8(std::string& o, uint64_t v) { o.append((char*)&v, 8); }
static void puts_(std::string& o, const std::string& s) { put8(o, s.size()); o += s; }
static void putv(std::string& o, const Value& v) { o += wire::encode(wire::nodeOf(v, false), wire::COMPACT); }
static void put(std::string& o, const X& e) {
    o += (char)e.k; auto kids = [&] { for (auto& c : e.kids) if (c.k != NONE) put(o, c); }; auto flag = [&](bool b) { putv(o, Value(b)); };
    switch (e.k) {
        case CONST: putv(o, parse(e.s[0])); return;
        case AND: case OR: case XOR: case LIST: case SET: case PATH: put8(o, e.kids.size()); kids(); return;
        case CAST: put8(o, (uint64_t)e.n[0]); kids(); return;
        case CALL: puts_(o, e.s[0]); put8(o, e.kids.size()); kids(); return;
        case AGG: puts_(o, e.s[0]); flag(e.n[0]); kids(); return;
        case TAGPROP: case EDGEPROP: puts_(o, ""); puts_(o, e.s[0]); puts_(o, e.s[1]); return;
        case DSTPROP: puts_(o, "$$"); puts_(o, e.s[0]); puts_(o, e.s[1]); return; case SRCPROP: puts_(o, "$^"); puts_(o, e.s[0]); puts_(o, e.s[1]); return;
        case ESRC: case ETYPE: case ERANK: case EDST: puts_(o, ""); puts_(o, e.s[0]); puts_(o, e.k == ESRC ? "_src" : e.k == ETYPE ? "_type" : e.k == ERANK ? "_rank" : "_dst"); return;
        case COLUMN: put8(o, e.n[0]); return; case UUID: case VAR: case LABEL: puts_(o, e.s[0]); return;
        case MAP: put8(o, e.kids.size()); for (size_t i = 0; i < e.kids.size(); ++i) { puts_(o, e.s[i]); put(o, e.kids[i]); } return;
        case CASE: flag(e.n[0]); flag(e.kids[0].k != NONE); flag(e.kids[1].k != NONE); put8(o, e.kids.size() / 2 - 1); kids(); return;
        case PRED: flag(!e.s[1].empty()); flag(e.kids[1].k != NONE); flag(!e.s[2].empty()); puts_(o, e.s[0]); if (!e.s[1].empty()) puts_(o, e.s[1]); kids(); if (!e.s[2].empty()) puts_(o, e.s[2]); return;
        case COMPR: flag(e.kids[1].k != NONE); flag(e.kids[2].k != NONE); flag(!e.s[1].empty()); puts_(o, e.s[0]); kids(); if (!e.s[1].empty()) puts_(o, e.s[1]); return;
        case REDUCE: flag(!e.s[2].empty()); puts_(o, e.s[0]); put(o, e.kids[0]); puts_(o, e.s[1]); put(o, e.kids[1]); put(o, e.kids[2]); if (!e.s[2].empty()) puts_(o, e.s[2]); return;
        case RANGE: put(o, e.kids[0]); put8(o, e.kids[1].k != NONE && e.kids[2].k != NONE ? 2 : 1); for (int i = 1; i < 3; ++i) if (e.kids[i].k != NONE) { put8(o, i - 1); put(o, e.kids[i]); } return;
        default: kids();
    }
}
static std::string bytes(const X& e) { std::string o; put(o, e); return o; }
static const X A = cst("i1"), B = cst("'a'"), L = cst("[i1,i2]"), T = cst("b1"), V0 = var("v"), W = var("w");
// one of each kind with well-typed operands
static const std::vector<X>& plain() {
    static const std::vector<X> r = [] {
        std::vector<X> r = {A, B, V0};
        for (int k = ADD; k <= MOD; ++k) r.push_back(x(k, {cst("i7"), V0}));
        for (int k : {PLUS, NEG, NOT, ISNULL, ISNOTNULL, ISEMPTY, ISNOTEMPTY}) r.push_back(x(k, {T})); for (int k : {INCR, DECR}) r.push_back(x(k, {V0}));
        for (int k = EQ; k <= GE; ++k) r.push_back(x(k, {A, V0})); for (int k = REG; k <= NOTENDS; ++k) r.push_back(x(k, {B, k == IN || k == NOTIN ? L : B}));
        r.push_back(x(SUBSCRIPT, {L, A})); r.push_back(x(ATTR, {cst("{'a':i5}"), B})); r.push_back(x(LABELATTR, {}, {"lab", "'at'"})); r.push_back(x(COLUMN, {}, {}, {1}));
        for (int k = AND; k <= XOR; ++k) r.push_back(x(k, {T, cst("b0")})); r.push_back(x(CAST, {A}, {}, {16})); r.push_back(x(CALL, {A}, {"abs"}));
        for (int k : {TAGPROP, EDGEPROP, VARPROP, DSTPROP, SRCPROP}) r.push_back(x(k, {}, {"tag", "prop"})); r.push_back(x(INPUTPROP, {}, {"prop"})); for (int k = ESRC; k <= EDST; ++k) r.push_back(x(k, {}, {"edge"}));
        r.push_back(x(VERTEX)); r.push_back(x(EDGE)); r.push_back(x(UUID, {}, {"id"})); r.push_back(x(VVAR, {cst("i0")}, {"v"})); r.push_back(x(LIST, {A, B})); r.push_back(x(SET, {A, B})); r.push_back(x(MAP, {A, B}, {"a", "b"})); r.push_back(x(LABEL, {}, {"lab"}));
        r.push_back(x(CASE, {none(), B, T, A}, {}, {1})); r.push_back(x(PRED, {L, x(EQ, {W, A})}, {"any", "w", ""})); r.push_back(x(COMPR, {L, x(EQ, {W, A}), W}, {"w", ""})); r.push_back(x(REDUCE, {A, L, x(ADD, {var("acc"), W})}, {"acc", "w", ""}));
        r.push_back(x(PATH, {B, cst("E('a','b',1,'e',0,{})"), cst("V('b')")})); for (int k = TSPREFIX; k <= TSFUZZY; ++k) r.push_back(x(k, {}, {"idx", "col", "val", "or"}, {1, 100, 200}));
        r.push_back(x(AGG, {V0}, {"SUM"}, {0})); r.push_back(x(RANGE, {L, cst("i0"), A}));
        return r;
    }();
    return r;
}
// every option of every kind
static const std::vector<X>& options() {
    static const std::vector<X> r = [] {
        std::vector<X> r = plain();
        for (const char* v : {"e", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "b0", "b1", "i0", "i2", "i-1", "i9223372036854775807", "f0.5", "f1e300", "''", "'b'", "'a\\00b'", "'a text that is long enough to be allocated'", "d(2020,1,1)", "t(1,2,3,4)", "T(2020,1,1,1,2,3,4)", "V('a';'t'{'p':i1})", "E('a','b',1,'e',0,{'p':i1})", "P(V('a');(V('b'),1,'e',0,{}))", "[]", "[i1,'a']", "['a',i1]", "{'k':i1}", "<i1>", "D('c';[i1])"}) r.push_back(cst(v));
        for (int k = ADD; k <= MOD; ++k) for (auto& p : {std::make_pair(A, A), std::make_pair(V0, cst("i7")), std::make_pair(cst("i7"), cst("i7"))}) r.push_back(x(k, {p.first, p.second}));
        for (int k : {PLUS, NEG, NOT, ISNULL, ISNOTNULL, ISEMPTY, ISNOTEMPTY}) r.push_back(x(k, {A})); for (int k : {INCR, DECR}) { r.push_back(x(k, {W})); r.push_back(x(k, {A})); r.push_back(x(k, {x(VVAR, {none()}, {"v"})})); }
        for (int k = EQ; k <= NOTENDS; ++k) { r.push_back(x(k, {V0, A})); r.push_back(x(k, {W, A})); }
        r.push_back(x(SUBSCRIPT, {L, cst("i0")})); r.push_back(x(SUBSCRIPT, {V0, A})); r.push_back(x(ATTR, {cst("{'a':i5}"), cst("'b'")})); r.push_back(x(ATTR, {V0, B})); r.push_back(x(ATTR, {V0, x(LABEL, {}, {"a"})}));
        r.push_back(x(LABELATTR, {}, {"lab2", "'at'"})); r.push_back(x(LABELATTR, {}, {"lab", "'at2'"})); 
        for (long n : {0L, 2L, -1L, 255L, 256L, 2147483647L, -2147483648L}) r.push_back(x(COLUMN, {}, {}, {n}));
        for (int k = AND; k <= XOR; ++k) { r.push_back(x(k, {cst("b0"), T})); r.push_back(x(k, {T, T})); r.push_back(x(k, {T, cst("b0"), T})); r.push_back(x(k, {T, cst("b0"), V0})); r.push_back(x(k, {T, cst("b0"), T, T})); }
        for (int b : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}) r.push_back(x(CAST, {A}, {}, {1L << b})); r.push_back(x(CAST, {A}, {}, {(long)(1ull << 63)})); r.push_back(x(CAST, {V0}, {}, {16}));
        r.push_back(x(CALL, {V0}, {"abs"})); r.push_back(x(CALL, {A}, {"ABS"})); r.push_back(x(CALL, {cst("f2.5")}, {"floor"})); r.push_back(x(CALL, {A, A}, {"pow"})); r.push_back(x(CALL, {A, cst("i2")}, {"pow"})); r.push_back(x(CALL, {}, {"e"})); r.push_back(x(CALL, {A, cst("i3"), A}, {"range"})); r.push_back(x(CALL, {A}, {"nosuchfunction"})); r.push_back(x(CALL, {}, {"nosuchfunction"}));
        for (int k : {TAGPROP, EDGEPROP, VARPROP, DSTPROP, SRCPROP}) { r.push_back(x(k, {}, {"tag2", "prop"})); r.push_back(x(k, {}, {"tag", "prop2"})); r.push_back(x(k, {}, {"prop", "tag"})); r.push_back(x(k, {}, {"*", "_src"})); } r.push_back(x(INPUTPROP, {}, {"prop2"})); for (int k = ESRC; k <= EDST; ++k) { r.push_back(x(k, {}, {"edge2"})); r.push_back(x(k, {}, {"*"})); }
        r.push_back(x(UUID, {}, {"id2"})); for (const char* n : {"w", "__V\xc3\xa9", "a b"}) { r.push_back(var(n)); r.push_back(x(LABEL, {}, {n})); r.push_back(x(VVAR, {none()}, {n})); } r.push_back(x(VVAR, {none()}, {"v"})); r.push_back(x(VVAR, {cst("i-1")}, {"v"})); r.push_back(x(VVAR, {cst("i0")}, {"w"})); r.push_back(x(LABEL, {}, {""}));
        for (int k : {LIST, SET, PATH}) { r.push_back(x(k, {A})); r.push_back(x(k, {B, A})); r.push_back(x(k, {A, B, V0})); r.push_back(x(k, {A, A})); }
        r.push_back(x(MAP, {A}, {"a"})); r.push_back(x(MAP, {A}, {"b"})); r.push_back(x(MAP, {B}, {"a"})); r.push_back(x(MAP, {A}, {""})); r.push_back(x(MAP, {B, A}, {"b", "a"})); r.push_back(x(MAP, {A, B, V0}, {"a", "b", "c"}));
        for (auto& cond : {none(), A, V0}) for (auto& def : {none(), B, A}) { r.push_back(x(CASE, {cond, def, A, B}, {}, {1})); r.push_back(x(CASE, {cond, def, T, A, cst("b0"), B}, {}, {1})); r.push_back(x(CASE, {cond, def, T, A, T, V0}, {}, {1})); }
        r.push_back(x(CASE, {none(), B, T, A}, {}, {0})); r.push_back(x(CASE, {none(), A, T, A}, {}, {0})); r.push_back(x(CASE, {none(), A, V0, B}, {}, {0}));
        X f = x(EQ, {W, A}), g = x(GT, {W, A});
        for (const char* n : {"all", "any", "single", "none"}) { r.push_back(x(PRED, {L, f}, {n, "w", ""})); r.push_back(x(PRED, {L, f}, {n, "u", ""})); r.push_back(x(PRED, {L, g}, {n, "w", ""})); r.push_back(x(PRED, {V0, f}, {n, "w", ""})); r.push_back(x(PRED, {L, f}, {n, "w", "ANY(n IN $l)"})); }
        r.push_back(x(PRED, {x(ATTR, {cst("{'a':i5}"), B}), none()}, {"exists", "", ""})); r.push_back(x(PRED, {x(SUBSCRIPT, {cst("{'a':i5}"), B}), none()}, {"exists", "", ""})); r.push_back(x(PRED, {x(ATTR, {V0, B}), none()}, {"exists", "", "exists(v.a)"}));
        for (auto& a : {none(), f, g, T}) for (auto& b : {none(), W, f, x(ADD, {W, A})}) { r.push_back(x(COMPR, {L, a, b}, {"w", ""})); r.push_back(x(COMPR, {L, a, b}, {"w", "[n IN l]"})); } r.push_back(x(COMPR, {V0, f, W}, {"w", ""})); r.push_back(x(COMPR, {L, f, W}, {"u", ""})); r.push_back(x(COMPR, {L, f, f}, {"w", "\x01"}));
        X sum = x(ADD, {var("acc"), W}); r.push_back(x(REDUCE, {A, L, sum}, {"acc", "w", "reduce(x)"})); r.push_back(x(REDUCE, {cst("i0"), L, sum}, {"acc", "w", ""})); r.push_back(x(REDUCE, {A, V0, sum}, {"acc", "w", ""})); r.push_back(x(REDUCE, {A, L, W}, {"acc", "w", ""})); r.push_back(x(REDUCE, {A, L, sum}, {"acc2", "w", ""})); r.push_back(x(REDUCE, {A, L, sum}, {"acc", "u", ""})); r.push_back(x(REDUCE, {L, A, sum}, {"acc", "w", ""})); r.push_back(x(REDUCE, {A, L, sum}, {"w", "acc", ""}));
        for (int k = TSPREFIX; k <= TSFUZZY; ++k) { for (int i = 0; i < 4; ++i) { X t = x(k, {}, {"idx", "col", "val", "or"}, {1, 100, 200}); t.s[i] = i == 3 ? "and" : "other"; r.push_back(t); } for (int i = 0; i < 3; ++i) for (long v : {-2L, -1L, 0L, 7L}) { if (v == -2 && i) continue; X t = x(k, {}, {"idx", "col", "val", "or"}, {1, 100, 200}); t.n[i] = v; r.push_back(t); } }
        for (const char* n : {"COUNT", "sum", "COLLECT_SET", "nosuch"}) for (long d : {0L, 1L}) r.push_back(x(AGG, {V0}, {n}, {d})); r.push_back(x(AGG, {V0}, {"SUM"}, {1})); r.push_back(x(AGG, {A}, {"SUM"}, {0})); r.push_back(x(AGG, {cst("'*'")}, {"COUNT"}, {0}));
        for (auto& lo : {none(), A, V0}) for (auto& hi : {none(), A, cst("i2")}) if (lo.k != NONE || hi.k != NONE) r.push_back(x(RANGE, {L, lo, hi})); r.push_back(x(RANGE, {V0, A, A}));
        // names and constants that run into one another when put together
        r.push_back(x(CALL, {B}, {"absa"})); r.push_back(x(MAP, {A, B}, {"ab", ""})); r.push_back(x(TAGPROP, {}, {"tagp", "rop"})); r.push_back(x(SRCPROP, {}, {"ta", "gprop"}));
        std::vector<X> u; for (auto& e : r) { bool dup = false; for (auto& o : u) dup |= text(o) == text(e); if (!dup) u.push_back(e); } return u;
    }();
    return r;
}
// every kind in every operand place of every kind
static const std::vector<X>& nested() {
    static const std::vector<X> r = [] {
        std::vector<X> r, host; for (auto& p : plain()) if (!p.kids.empty()) host.push_back(p);
        host.push_back(x(CASE, {A, B, T, A, cst("b0"), V0}, {}, {1})); host.push_back(x(CASE, {none(), B, T, A}, {}, {0})); host.push_back(x(AND, {T, T, T})); host.push_back(x(COMPR, {L, none(), W}, {"w", ""})); host.push_back(x(COMPR, {L, x(EQ, {W, A}), none()}, {"w", "orig"})); host.push_back(x(RANGE, {L, none(), A})); host.push_back(x(RANGE, {L, A, none()})); host.push_back(x(AGG, {V0}, {"COUNT"}, {1})); host.push_back(x(PRED, {x(ATTR, {V0, B}), none()}, {"exists", "", ""}));
        for (auto& h : host) for (size_t i = 0; i < h.kids.size(); ++i) {
            if (h.kids[i].k == NONE) continue;
            for (auto& c : plain()) {
                if (h.k == ATTR && i == 1 && c.k != CONST && c.k != LABEL) continue;   // prints only names there
                if (h.k == PRED && h.s[0] == "exists" && c.k != ATTR && c.k != SUBSCRIPT) continue;
                X e = h; e.kids[i] = c; r.push_back(e);
            }
        }
        return r;
    }();
    return r;
}
static Env context(int variant) {
    Env e; e.vars["v"] = variant ? Value("other") : Value(3); e.vars["w"] = Value(variant ? 9 : 8); e.vars["acc"] = Value(0); e.salt = variant ? "!" : ""; e.vertex = parse("V('a';'t'{'p':i1})"); e.edge = parse("E('a','b',1,'e',0,{})"); return e;
}
static bool judgeable(const X& e) { if (e.k == AGG || e.k == LABELATTR || e.k == UUID || is(e.k, TSPREFIX, TSFUZZY)) return false; if (e.k == CALL && (e.s[0].find("nosuch") == 0 || e.s[0] == "absa")) return false; if (e.k == CALL && !FunctionManager::get(e.s[0], e.kids.size()).ok()) return false; for (auto& c : e.kids) if (c.k != NONE && !judgeable(c)) return false; return true; }
static bool defined(const X& e, int variant) { if (!judgeable(e)) return false; Env c = context(variant); try { eval(e, c); return true; } catch (Undefined&) { return false; } }
static std::string value(Ex* e, int variant) { Env c = context(variant); Value v = e->eval(c); return repr(v) + " " + c.content(); }
// an equal expression in every respect
static void alike(Ctx& c, const X& e, Ex* want, Ex* got, const char* how) {
    MC_CHECK(c, got != nullptr, "lost", how << " of " << text(e) << " is nothing");
    MC_CHECK(c, (int)got->kind() == e.k, "kind", how << " of " << text(e) << " has kind " << (int)got->kind());
    MC_CHECK(c, *got == *want && *want == *got && !(*got != *want), "equal", how << " of " << text(e) << " differs from the original: " << got->toString() << " and " << want->toString());
    MC_CHECK(c, got->toString() == show(e), "text", how << " of " << text(e) << " prints " << got->toString() << " instead of " << show(e));
    MC_CHECK(c, got->rawString() == origin(e), "original text", how << " of " << text(e) << " has the original text " << got->rawString() << " instead of " << origin(e));
    if (encodable(e)) MC_CHECK(c, got->encode() == want->encode() && Ex::encode(*got) == Ex::encode(*want), "again", how << " of " << text(e) << " is stored differently from the original");
    std::vector<Ex*> a, b; nodes(want, a); nodes(got, b); MC_CHECK(c, a.size() == b.size(), "shape", how << " of " << text(e) << " has " << b.size() << " nodes, not " << a.size());
    for (size_t i = 0; i < a.size(); ++i) MC_CHECK(c, (int)a[i]->kind() == (int)b[i]->kind(), "shape", how << " of " << text(e) << " differs at node " << i);
    for (auto p : a) for (auto q : b) MC_CHECK(c, p != q, "shared", how << " of " << text(e) << " shares a node (" << p->toString() << ") with the original");
    for (int v = 0; v < 2; ++v) if (defined(e, v)) { std::string x = value(want, v), y = value(got, v); MC_CHECK(c, x == y, "value", how << " of " << text(e) << " evaluates to " << y << " instead of " << x); }
}
static void whole(Ctx& c, const X& e) {
    Pool p; Ex* o = build(&p, e); MC_LOG(c, text(e)); c.step();
    MC_CHECK(c, (int)o->kind() == e.k, "kind", text(e) << " is made with kind " << (int)o->kind());
    MC_CHECK(c, o->toString() == show(e), "text", text(e) << " prints " << o->toString() << " instead of " << show(e));
    MC_CHECK(c, o->rawString() == origin(e), "original text", text(e) << " has the original text " << o->rawString() << " instead of " << origin(e));
    Ex* again = build(&p, e); MC_CHECK(c, *o == *again && !(*o != *again), "equal", text(e) << " is not equal to the same expression made again");
    alike(c, e, o, o->clone(), "the copy"); alike(c, e, o, o->clone()->clone(), "the copy's copy");
    if (encodable(e)) {
        std::string b = o->encode(); { Pool q; alike(c, e, o, Ex::decode(&q, b), "the stored form"); Ex* d = Ex::decode(&q, b); alike(c, e, d, d->clone(), "the copy of the stored form"); }
        MC_CHECK(c, o->encode() == b, "again", text(e) << " is stored differently the second time");
        std::string ref = bytes(e); Pool q; Ex* d = Ex::decode(&q, folly::StringPiece(ref)); alike(c, e, o, d, "the form stored earlier");
        // equal also when the two live in different pools, and in a larger buffer than needed
        std::string two = b + b; Ex* f = Ex::decode(&q, folly::StringPiece(two)); alike(c, e, o, f, "the stored form followed by another");
        // evaluation leaves the expression as it was
        if (defined(e, 0)) { value(o, 0); MC_CHECK(c, o->encode() == b && o->toString() == show(e), "evaluated", text(e) << " changes by being evaluated"); }
        c.state(b);
    } else c.state(show(e));
    c.outcome(KNAME[e.k]);
}
// an expression other than any of those used
static Ex* stranger(Pool* p) { return ConstantExpression::make(p, "a stranger"); }
static void mutate(Ctx& c, const X& e) {
    Pool p; Ex* probe = build(&p, e); std::vector<Ex*> all; nodes(probe, all); int way = c.choose(encodable(e) ? 3 : 2);
    auto copyOf = [&](Ex* o) { return way < 2 ? o->clone() : Ex::decode(&p, o->encode()); };
    for (size_t at = 0; at < all.size(); ++at) {
        std::vector<Ex*> kids; std::vector<std::function<void(Ex*)>> puts; slots(all[at], kids, &puts);
        int extra = 0; switch ((int)all[at]->kind()) { case CONST: extra = 1; break; case PRED: case COMPR: extra = 2; break; case REDUCE: extra = 3; break; case AND: case OR: case XOR: case CALL: case PATH: case AGG: extra = 1; break; case CASE: extra = 3; break; case LIST: case SET: case MAP: extra = 1; break; case TSPREFIX: case TSWILD: case TSREG: case TSFUZZY: extra = 6; break; default: break; }
        for (int m = 0; m < (int)puts.size() + extra; ++m) {
            if (m < (int)puts.size() && !puts[m]) continue;
            Ex* o = build(&p, e); Ex* d = copyOf(o); Ex* changed = way == 1 ? d : o; Ex* kept = way == 1 ? o : d;
            std::vector<Ex*> mine; nodes(changed, mine); Ex* n = mine[at]; std::string before = changed->toString(); bool visible = true;
            if (m < (int)puts.size()) { std::vector<Ex*> k2; std::vector<std::function<void(Ex*)>> p2; slots(n, k2, &p2); p2[m](stranger(&p)); }
            else {
                int j = m - (int)puts.size();
                switch ((int)n->kind()) {
                    case CONST: static_cast<ConstantExpression*>(n)->setValue(Value("a stranger")); break;
                    case PRED: { auto l = static_cast<PredicateExpression*>(n); if (j == 0) { l->setInnerVar("stranger"); visible = l->name() != "exists"; } else { l->setOriginString("stranger"); visible = false; } break; }
                    case COMPR: { auto l = static_cast<ListComprehensionExpression*>(n); if (j == 0) l->setInnerVar("stranger"); else { l->setOriginString("stranger"); visible = false; } break; }
                    case REDUCE: { auto l = static_cast<ReduceExpression*>(n); if (j == 0) l->setInnerVar("stranger"); else if (j == 1) l->setAccumulator("stranger"); else { l->setOriginString("stranger"); visible = false; } break; }
                    case AND: case OR: case XOR: static_cast<LogicalExpression*>(n)->addOperand(stranger(&p)); break;
                    case CALL: static_cast<FunctionCallExpression*>(n)->args()->addArgument(stranger(&p)); break;
                    case PATH: static_cast<PathBuildExpression*>(n)->add(stranger(&p)); break;
                    case AGG: { auto l = static_cast<AggregateExpression*>(n); l->setDistinct(!l->distinct()); break; }
                    case CASE: { auto l = static_cast<CaseExpression*>(n); if (j == 0) l->setDefault(stranger(&p)); else if (j == 1) { l->setCondition(stranger(&p)); visible = l->isGeneric(); } else { auto k = CaseList::make(&p); k->add(stranger(&p), stranger(&p)); l->setCases(k); } break; }
                    case LIST: static_cast<ListExpression*>(n)->setItems({stranger(&p)}); break; case SET: static_cast<SetExpression*>(n)->setItems({stranger(&p)}); break; case MAP: static_cast<MapExpression*>(n)->setItems({{"s", stranger(&p)}}); break;
                    default: { auto l = static_cast<TextSearchExpression*>(n); switch (j) { case 0: l->arg()->setVal("stranger"); break; case 1: l->arg()->setOP(l->arg()->op() == "or" ? "and" : "or"); visible = l->arg()->fuzziness() >= -1; break; case 2: l->arg()->setFuzziness(77); break; case 3: l->arg()->setLimit(77); break; case 4: l->arg()->setTimeout(77); break; default: l->setArgs(TextSearchArgument::make(&p, "stranger", "s", "t")); } }
                }
            }
            c.step();
            MC_CHECK(c, kept->toString() == show(e) && kept->rawString() == origin(e), "independence", "changing " << (way == 1 ? "the copy" : "the original") << " of " << text(e) << " at node " << at << " (change " << m << ") changes the other to " << kept->toString());
            MC_CHECK(c, *kept == *probe, "independence", "changing " << (way == 1 ? "the copy" : "the original") << " of " << text(e) << " at node " << at << " (change " << m << ") makes the other different");
            if (encodable(e)) MC_CHECK(c, kept->encode() == probe->encode(), "independence", "changing one of " << text(e) << " and its copy at node " << at << " (change " << m << ") changes what is stored for the other");
            // and the change is a change
            if (visible) { if (changed->toString() != before) MC_CHECK(c, *changed != *probe && !(*probe == *changed), "unequal", text(e) << " equals what it becomes by change " << m << " at node " << at << ", " << changed->toString()); else MC_CHECK(c, false, "setter", "change " << m << " at node " << at << " of " << text(e) << " has no effect"); }
        }
    }
    c.state(text(e)); c.outcome("way " + std::to_string(way));
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"options", [](Ctx& c) { whole(c, c.pick(options())); }, false, "every kind of expression with every option (about 400)"});
    sc.push_back({"nested", [](Ctx& c) { whole(c, c.pick(nested())); }, false, "every kind in every operand place of every kind"});
    sc.push_back({"pairs", [](Ctx& c) {
        static Pool pool; static std::vector<Ex*> all = [] { std::vector<Ex*> r; for (auto& e : options()) r.push_back(build(&pool, e)); return r; }();
        int i = c.choose((int)all.size()); const X& a = options()[i]; std::string met;
        for (size_t j = 0; j < all.size(); ++j) {
            bool w = same(a, options()[j]), g = *all[i] == *all[j]; c.step(); met += g ? '1' : '0';
            MC_CHECK(c, g == w, "equality", text(a) << (g ? " equals " : " does not equal ") << text(options()[j])); MC_CHECK(c, (*all[i] != *all[j]) == !w, "inequality", text(a) << " != " << text(options()[j]) << " is wrong");
        }
        c.state(text(a)); c.outcome(KNAME[a.k]);
    }, false, "all pairs of about 400 expressions compared"});
    sc.push_back({"pairs nested", [](Ctx& c) {   // equality looks at every operand: the same hosts with different things in one place
        const auto& n = nested(); static Pool pool; static std::vector<Ex*> all = [] { std::vector<Ex*> r; for (auto& e : nested()) r.push_back(build(&pool, e)); return r; }();
        int block = c.choose(((int)n.size() + 63) / 64);
        for (size_t i = block * 64; i < n.size() && i < block * 64u + 64; ++i) for (size_t j = 0; j < n.size(); ++j) {
            if (n[i].k != n[j].k && (i + j) % 16) continue; bool w = same(n[i], n[j]); c.step(); MC_CHECK(c, (*all[i] == *all[j]) == w, "equality", text(n[i]) << (w ? " does not equal " : " equals ") << text(n[j]));
        }
        c.state(std::to_string(block)); c.outcome("compared");
    }, false, "all pairs of the same outer kind among the nested expressions compared, and every 16th of other kinds"});
    sc.push_back({"changes", [](Ctx& c) { mutate(c, c.pick(options())); }, false, "every change at every node of every expression, on the original or on the copy, by copying or by storing"});
    sc.push_back({"changes nested", [](Ctx& c) { const auto& n = nested(); int i = c.choose((int)n.size()); if (!c.thorough() && i % 5) throw mc::Abandon(); mutate(c, n[i]); }, false, "the same on every fifth (every) nested expression"});
    sc.push_back({"chains", [](Ctx& c) {   // deeper, and both operands nested
        static const std::vector<X> hosts = [] { std::vector<X> r; for (auto& p : plain()) if (!p.kids.empty() && encodable(p) && p.k != ATTR) r.push_back(p); return r; }();
        const X &a = c.pick(hosts), &b = c.pick(hosts); const X& in = c.thorough() ? c.pick(hosts) : hosts[(text(a).size() * 7 + text(b).size()) % hosts.size()];
        X f = b; f.kids.back() = in; f.kids.front() = in; X e = a; e.kids.back() = f; e.kids.front() = f; whole(c, e);
    }, false, "chains of three kinds, filling the first and the last place"});
    return mc::run(argc, argv, "C29", sc, {"kinds the code declares unfit for storage (input and variable properties, versioned variables, label attributes, text search) are copied and compared only", "list, set and map expressions hold at least one item, a conditional has a default", "the original query text is carried along but is no part of equality", "values inside expressions survive storage as C27 shows"});
}
