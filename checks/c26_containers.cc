// C26: tables, paths, edges and look-ups of the graph containers; all short histories of editing operations.
#include "common/base/Base.h"
#include "mc.h"
#include "vals.h"
#include "valrel.h"
using mc::Ctx; using namespace nebula; using vals::parse; using vals::repr;

struct MStep { std::string dst; int type; std::string name; long rank; std::string props; };
struct MPath {
    std::string src; std::vector<MStep> steps;
    std::string text() const { std::string r = "P(" + src; for (auto& s : steps) r += ";(" + s.dst + "," + std::to_string(s.type) + "," + s.name + "," + std::to_string(s.rank) + "," + s.props + ")"; return r + ")"; }
    void reverse() { MPath r; r.src = steps.empty() ? src : steps.back().dst; for (size_t i = steps.size(); i-- > 0;) { MStep s = steps[i]; s.type = -s.type; s.dst = i ? steps[i - 1].dst : src; r.steps.push_back(s); } *this = r; }
    const std::string& last() const { return steps.empty() ? src : steps.back().dst; }
    bool append(const MPath& o) { if (last() != o.src) return false; steps.insert(steps.end(), o.steps.begin(), o.steps.end()); return true; }
    static std::string vid(const std::string& v) { return v.substr(2, v.find_first_of(";)") - 2); }
    bool dupVertices() const { std::set<std::string> s = {vid(src)}; for (auto& e : steps) if (!s.insert(vid(e.dst)).second) return true; return false; }
    bool dupEdges() const { std::set<std::string> s; std::string at = vid(src); for (auto& e : steps) { std::string to = vid(e.dst); std::string k = (e.type > 0 ? at + ">" + to : to + ">" + at) + "#" + std::to_string(std::abs(e.type)) + "@" + std::to_string(e.rank); if (!s.insert(k).second) return true; at = to; } return false; }
};
static const std::vector<std::string> VX = {"V('a')", "V('b')", "V('a';'t'{'p':i1})", "V(i7)"};
static const std::vector<MStep> ST = {{"V('a')", 1, "'e'", 0, "{}"}, {"V('b')", 1, "'e'", 0, "{}"}, {"V('b')", -1, "'f'", 0, "{'w':f0.5}"}, {"V('a')", -1, "'e'", 0, "{}"}, {"V('b')", 1, "'e'", 5, "{}"}, {"V('a')", 2, "'g'", 0, "{}"}, {"V('a';'t'{'p':i1})", 1, "'e'", 0, "{}"}, {"V(i7)", -1, "'e'", -1, "{'x':'y'}"}};
static Step mk(const MStep& m) { Step s; s.dst = parse(m.dst).getVertex(); s.type = m.type; s.name = m.name.substr(1, m.name.size() - 2); s.ranking = m.rank; s.props = parse(m.props).getMap().kvs; return s; }
static void look(Ctx& c, const Path& p, const MPath& m, const char* who) {
    MC_CHECK(c, repr(p) == m.text(), "path", who << " is " << repr(p) << " instead of " << m.text());
    MC_CHECK(c, p.hasDuplicateVertices() == m.dupVertices(), "dup-vertex", m.text() << (m.dupVertices() ? " has" : " has no") << " repeated vertex, reported otherwise");
    MC_CHECK(c, p.hasDuplicateEdges() == m.dupEdges(), "dup-edge", m.text() << (m.dupEdges() ? " has" : " has no") << " repeated edge, reported otherwise");
}
struct MSet { std::vector<std::string> cols; std::vector<std::vector<std::string>> rows;
    std::string text() const { std::string r = "D("; for (size_t i = 0; i < cols.size(); ++i) r += (i ? "," : "") + vals::quote(cols[i]); for (auto& x : rows) { r += ";["; for (size_t i = 0; i < x.size(); ++i) r += (i ? "," : "") + x[i]; r += "]"; } return r + ")"; } };
static void look(Ctx& c, const DataSet& d, const MSet& m, const char* who) {
    MC_CHECK(c, repr(d) == m.text(), "table", who << " is " << repr(d) << " instead of " << m.text());
    MC_CHECK(c, d.size() == m.rows.size() && d.rowSize() == m.rows.size() && d.colSize() == m.cols.size() && d.keys() == m.cols && (size_t)(d.end() - d.begin()) == m.rows.size(), "size", who << " reports wrong sizes or names");
    for (auto n : {"a", "b", "c", "zz"}) {
        std::vector<std::string> w; auto f = std::find(m.cols.begin(), m.cols.end(), n); if (f != m.cols.end()) for (auto& r : m.rows) w.push_back(r[f - m.cols.begin()]);
        std::vector<std::string> g; for (auto& v : d.colValues(n)) g.push_back(repr(v));
        MC_CHECK(c, g == w, "column", "column " << n << " of " << m.text() << " holds other values than its rows");
    }
    for (size_t i = 0; i < m.rows.size(); ++i) { std::vector<std::string> g; for (auto& v : d.rowValues(i)) g.push_back(repr(v)); MC_CHECK(c, g == m.rows[i], "row", "row " << i << " of " << m.text() << " is different"); MC_CHECK(c, g.size() == m.cols.size(), "aligned", "row " << i << " of " << m.text() << " is not aligned with the columns"); }
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"paths", [](Ctx& c) {
        int n = c.thorough() ? 5 : 4; MPath mp, mq; mp.src = c.pick(VX); mq.src = VX[c.choose(2)];
        Path p(parse(mp.src).getVertex(), {}), q(parse(mq.src).getVertex(), {}); MC_LOG(c, "p from " << mp.src << ", q from " << mq.src);
        for (int i = 0; i < n; ++i) {
            int k = c.choose(15);
            if (k < 8) { MC_LOG(c, "p adds " << ST[k].dst << " type " << ST[k].type); p.addStep(mk(ST[k])); mp.steps.push_back(ST[k]); }
            else switch (k) {
                case 8: MC_LOG(c, "reverse p"); p.reverse(); mp.reverse(); break;
                case 9: { MC_LOG(c, "p append copy of q"); bool ok = p.append(q); MC_CHECK(c, ok == mp.append(mq), "append", "appending " << mq.text() << " to " << mp.text() << (ok ? " was accepted" : " was refused")); break; }
                case 10: { MC_LOG(c, "p append itself"); MPath t = mp; bool ok = p.append(p); MC_CHECK(c, ok == mp.append(t), "append", "appending " << t.text() << " to itself" << (ok ? " was accepted" : " was refused")); break; }
                case 11: { MC_LOG(c, "swap"); Path t(std::move(p)); p = std::move(q); q = std::move(t); std::swap(mp, mq); break; }
                case 12: { MC_LOG(c, "q = p"); q = p; mq = mp; break; }
                case 13: { MC_LOG(c, "p reversed twice"); Path t = p; t.reverse(); t.reverse(); MC_CHECK(c, repr(t) == repr(p), "reverse-twice", "reversing " << mp.text() << " twice gives " << repr(t)); break; }
                case 14: { MC_LOG(c, "swap steps"); if (mp.steps.size() < 2) throw mc::Abandon(); swap(p.steps[0], p.steps.back()); std::swap(mp.steps[0], mp.steps.back()); break; }
            }
            c.step(); look(c, p, mp, "p"); look(c, q, mq, "q"); c.state(mp.text() + mq.text());
        }
        c.outcome(std::to_string(mp.steps.size()) + (mp.dupEdges() ? "E" : "") + (mp.dupVertices() ? "V" : ""));
    }, false, "all histories of 4 (5) of 15 operations on two paths from 8 starts"});
    sc.push_back({"walks", [](Ctx& c) {   // repeated vertices and edges on all short walks
        static const std::vector<std::string> V = {"V('a')", "V('b')", "V(i7)"}; MPath m; m.src = c.pick(V); Path p(parse(m.src).getVertex(), {}); int n = c.choose(c.thorough() ? 5 : 4);
        for (int i = 0; i < n; ++i) { static const int T[] = {1, -1, 2}; MStep s{c.pick(V), T[c.choose(3)], "'e'", c.choose(2), "{}"}; p.addStep(mk(s)); m.steps.push_back(s); }
        c.step(n); look(c, p, m, "a path"); m.reverse(); p.reverse(); look(c, p, m, "a reversed path"); c.state(m.text()); c.outcome(std::string(m.dupEdges() ? "E" : "") + (m.dupVertices() ? "V" : ""));
    }, false, "all walks of up to 3 (4) steps over 3 vertices, 3 types and 2 ranks, and their reverses"});
    sc.push_back({"tables", [](Ctx& c) {
        static const std::vector<std::vector<std::string>> H = {{}, {"a"}, {"a", "b"}, {"b", "a"}, {"a", "a"}}; int n = c.thorough() ? 5 : 4;
        MSet ma, mb; ma.cols = c.pick(H); mb.cols = c.pick(H); DataSet a(ma.cols), b(mb.cols); int fresh = 0; MC_LOG(c, "x = " << ma.text() << ", y = " << mb.text());
        auto row = [&](int w) { std::vector<std::string> r; for (int i = 0; i < w; ++i) r.push_back("i" + std::to_string(++fresh)); return r; };
        auto add = [&](DataSet& d, MSet& m, int w, bool move) {
            auto r = row(w); Row R; for (auto& s : r) R.emplace_back(parse(s)); bool ok = move ? d.emplace_back(std::move(R)) : d.emplace_back(R); bool fits = (size_t)w == m.cols.size(); if (fits) m.rows.push_back(r);
            MC_CHECK(c, ok == fits, "row-fits", "a row of " << w << " values was " << (ok ? "accepted" : "refused") << " by " << m.text()); if (!move) MC_CHECK(c, R.size() == (size_t)w, "row-copy", "adding a copy of a row changed it");
        };
        for (int i = 0; i < n; ++i) {
            int k = c.choose(13);
            switch (k) {
                case 0: case 1: case 2: case 3: MC_LOG(c, "x adds a row of " << k); add(a, ma, k, k % 2); break;
                case 4: MC_LOG(c, "y adds a fitting row"); add(b, mb, (int)mb.cols.size(), true); break;
                case 5: MC_LOG(c, "y adds a row of 2"); add(b, mb, 2, false); break;
                case 6: case 7: {
                    MC_LOG(c, "x append y"); if (ma.cols.empty() && !ma.rows.empty()) throw mc::Abandon();
                    bool fits = ma.cols.empty() || ma.cols == mb.cols; DataSet t = b; bool ok = k == 6 ? a.append(std::move(t)) : a.append(std::move(b));
                    MC_CHECK(c, ok == fits, "append", "appending " << mb.text() << " to " << ma.text() << (ok ? " was accepted" : " was refused"));
                    if (fits) { ma.cols = mb.cols; ma.rows.insert(ma.rows.end(), mb.rows.begin(), mb.rows.end()); if (k == 7) { b = DataSet(mb.cols); mb.rows.clear(); } } break;
                }
                case 8: case 9: {
                    MC_LOG(c, "x merge y"); bool fits = ma.rows.size() == mb.rows.size(); if (ma.cols.size() + mb.cols.size() > 6) throw mc::Abandon(); DataSet t = b; bool ok = k == 8 ? a.merge(std::move(t)) : a.merge(std::move(b));
                    MC_CHECK(c, ok == fits, "merge", "merging " << mb.text() << " into " << ma.text() << (ok ? " was accepted" : " was refused"));
                    if (fits) { ma.cols.insert(ma.cols.end(), mb.cols.begin(), mb.cols.end()); for (size_t r = 0; r < ma.rows.size(); ++r) ma.rows[r].insert(ma.rows[r].end(), mb.rows[r].begin(), mb.rows[r].end()); if (k == 9) { b.clear(); mb = MSet(); } } break;
                }
                case 10: MC_LOG(c, "swap"); { DataSet t(std::move(a)); a = std::move(b); b = t; } std::swap(ma, mb); break;
                case 11: MC_LOG(c, "y = x"); b = a; mb = ma; break;
                case 12: MC_LOG(c, "clear x"); a.clear(); ma = MSet(); break;
            }
            c.step(); look(c, a, ma, "x"); look(c, b, mb, "y"); c.state(ma.text() + mb.text());
        }
        c.outcome(std::to_string(ma.cols.size()) + "x" + std::to_string(ma.rows.size()));
    }, false, "all histories of 4 (5) of 13 operations on two tables from 25 pairs of headers"});
    sc.push_back({"edges", [](Ctx& c) {
        static const std::vector<std::string> V = {"'a'", "'b'", "i7", "n0"}; static const int T[] = {1, -1, 0, 2147483647, -7}; static const char* P[] = {"{}", "{'w':f0.5}", "{'w':i1,'x':'y'}"};
        std::string s = c.pick(V), d = c.pick(V), p = P[c.choose(3)]; int t = T[c.choose(5)]; long k = c.choose(3) - 1; auto txt = [&](const std::string& s, const std::string& d, int t) { return "E(" + s + "," + d + "," + std::to_string(t) + ",'e'," + std::to_string(k) + "," + p + ")"; };
        Edge e = parse(txt(s, d, t)).getEdge(), f = e; e.reverse(); MC_CHECK(c, repr(e) == txt(d, s, -t), "edge-reverse", "reversing " << txt(s, d, t) << " gives " << repr(e));
        if (t) MC_CHECK(c, e == f && std::hash<Edge>()(e) == std::hash<Edge>()(f), "edge-same", txt(s, d, t) << " and its reverse are not the same edge");
        e.reverse(); MC_CHECK(c, repr(e) == repr(f), "edge-reverse", "reversing " << txt(s, d, t) << " twice gives " << repr(e));
        for (auto key : {"w", "x", "", "W"}) { Value m = parse(p); auto i = m.getMap().kvs.find(key); bool has = i != m.getMap().kvs.end(); MC_CHECK(c, e.contains(Value(key)) == has && repr(e.value(key)) == (has ? repr(i->second) : "n0"), "edge-prop", "property " << key << " of " << txt(s, d, t) << " reads " << repr(e.value(key))); }
        MC_CHECK(c, !e.contains(Value(1)) && !e.contains(Value()) && !e.contains(Value::kNullValue), "edge-prop", "an edge contains a key that is not a text");
        e.clear(); MC_CHECK(c, repr(e) == "E(e,e,0,'',0,{})", "edge-clear", "a cleared edge holds " << repr(e)); c.step(4); c.state(txt(s, d, t)); c.outcome(std::to_string(t));
    }, false, "all edges over 4 identities, 5 types, 3 ranks and 3 property sets: reversal, look-ups, clearing"});
    sc.push_back({"lookups", [](Ctx& c) {   // properties of vertices, members of lists, maps and sets
        static const std::vector<std::string> TG = {"'t'{}", "'t'{'p':i1}", "'u'{'p':i2,'q':n0}", "'u'{'q':'x'}"}; static const std::vector<std::string> M = {"e", "n0", "b1", "i1", "f1", "'p'", "'q'", "[i1]"};
        int kind = c.choose(4);
        if (kind == 0) {
            std::vector<std::string> tags; std::string t = "V('v'"; int n = c.choose(4); for (int i = 0; i < n; ++i) { tags.push_back(c.pick(TG)); t += ";" + tags.back(); } t += ")"; Vertex v = parse(t).getVertex();
            for (std::string key : {"p", "q", "", "P"}) { std::string w; for (auto& g : tags) { Value m = parse(g.substr(3)); auto i = m.getMap().kvs.find(key); if (w.empty() && i != m.getMap().kvs.end()) w = repr(i->second); }
                MC_CHECK(c, v.contains(Value(key)) == !w.empty() && repr(v.value(key)) == (w.empty() ? "n0" : w), "vertex-prop", "property " << key << " of " << t << " reads " << repr(v.value(key))); }
            MC_CHECK(c, !v.contains(Value(1)) && !v.contains(Value()), "vertex-prop", "a vertex contains a key that is not a text"); MC_CHECK(c, repr(v) == t, "look-only", "a look-up changed " << t); c.state(t); c.outcome("v" + std::to_string(n));
        } else {
            int n = c.choose(3); std::vector<std::string> el; for (int i = 0; i < n; ++i) el.push_back(c.pick(M)); const std::string& x = c.pick(M); Value X = parse(x);
            if (kind == 1) { List l; for (auto& e : el) l.emplace_back(parse(e)); bool w = false; for (auto& e : el) w |= valrel::eq(parse(e), X); MC_CHECK(c, l.contains(X) == w && l.size() == (size_t)n && l.empty() == (n == 0), "list-member", x << " in " << repr(l)); for (int i = 0; i < n; ++i) MC_CHECK(c, repr(l[i]) == el[i], "list-index", "element " << i << " of " << repr(l)); c.state(repr(l) + x); }
            else if (kind == 2) { Set s; std::vector<std::string> u; for (auto& e : el) { if (e == "f1") throw mc::Abandon(); s.values.emplace(parse(e)); if (std::find(u.begin(), u.end(), e) == u.end()) u.push_back(e); } if (x == "f1") throw mc::Abandon(); bool w = std::find(u.begin(), u.end(), x) != u.end(); MC_CHECK(c, s.contains(X) == w && s.size() == u.size(), "set-member", x << " in " << repr(s)); c.state(repr(s) + x); }
            else { Map m; std::map<std::string, std::string> w; for (auto& e : el) { std::string k = e[0] == '\'' ? e.substr(1, 1) : e; if (w.emplace(k, e).second) m.kvs.emplace(k, parse(e)); } bool has = X.isStr() && w.count(X.getStr()); MC_CHECK(c, m.contains(X) == has && m.size() == w.size(), "map-member", x << " in " << repr(m)); for (auto k : {"p", "q", "i1", ""}) MC_CHECK(c, repr(m.at(k)) == (w.count(k) ? w[k] : "n5"), "map-at", "key " << k << " of " << repr(m) << " reads " << repr(m.at(k))); c.state(repr(m) + x); }
            c.outcome(std::to_string(kind) + std::to_string(n));
        }
        c.step();
    }, false, "all vertices of up to 3 of 4 tags, all lists, sets and maps of up to 2 of 8 values, every look-up"});
    return mc::run(argc, argv, "C26", sc, {"a table without columns has no rows when another is appended to it", "sets do not mix integers and floating-point numbers of the same value"});
}
