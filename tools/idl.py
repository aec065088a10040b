# Parser for the Thrift interface definitions under src/common/interface, and emitters of C++ from them.
import os, re

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|#[^\n]*|("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z_][A-Za-z0-9_.]*|[-+]?[0-9][0-9A-Za-z_.]*|[{}()<>\[\],;:=*@&-])', re.S)
BASE = ("bool", "byte", "i8", "i16", "i32", "i64", "double", "float", "string", "binary", "void")


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise ValueError("interface definition: cannot read %r" % text[i:i + 40])
        if m.group(1): out.append(m.group(1))
        i = m.end()
    return out


class Parser:
    def __init__(self, text): self.t, self.i = tokens(text), 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): self.i += 1; return self.t[self.i - 1]
    def got(self, s):
        if self.peek() == s: self.i += 1; return True
        return False
    def need(self, s):
        if not self.got(s): raise ValueError("interface definition: wanted %r before %r" % (s, self.t[self.i:self.i + 8]))
    def annot(self):
        d = {}
        if self.got("("):
            while not self.got(")"):
                k = self.next()
                d[k] = self.next().strip('"\'') if self.got("=") else "1"
                self.got(",") or self.got(";")
        return d
    def typ(self):
        n = self.next()
        if n in ("list", "set"):
            self.need("<"); e = self.typ(); self.need(">"); r = (n, e)
        elif n == "map":
            self.need("<"); k = self.typ(); self.got(","); v = self.typ(); self.need(">"); r = ("map", k, v)
        else: r = n
        a = self.annot()
        return ("annot", r, a) if a else r
    def const(self):
        if self.got("{"):
            d = []
            while not self.got("}"):
                k = self.const(); self.need(":"); v = self.const(); d.append((k, v)); self.got(",") or self.got(";")
            return ("map", d)
        if self.got("["):
            d = []
            while not self.got("]"): d.append(self.const()); self.got(",")
            return ("list", d)
        return self.next()
    def fields(self, end):
        out = []
        while not self.got(end):
            fid = int(self.next()); self.need(":")
            req = "default"
            if self.peek() in ("required", "optional"): req = self.next()
            t = self.typ(); name = self.next(); default = None
            if self.got("="): default = self.const()
            a = self.annot(); self.got(",") or self.got(";")
            out.append(dict(id=fid, req=req, type=t, name=name, default=default, annot=a))
        return out
    def parse(self):
        m = dict(namespaces={}, includes=[], typedefs={}, enums={}, structs={}, services={}, order=[])
        while self.peek() is not None:
            k = self.next()
            if k == "namespace": lang = self.next(); m["namespaces"][lang] = self.next()
            elif k == "include": m["includes"].append(self.next().strip('"'))
            elif k == "cpp_include": self.next()
            elif k == "typedef": t = self.typ(); n = self.next(); m["typedefs"][n] = t; self.annot(); m["order"].append(("typedef", n))
            elif k == "enum":
                n = self.next(); self.need("{"); v, vals = -1, []
                while not self.got("}"):
                    e = self.next(); v = int(self.next(), 0) if self.got("=") else v + 1
                    vals.append((e, v)); self.annot(); self.got(",") or self.got(";")
                m["enums"][n] = dict(values=vals, annot=self.annot()); m["order"].append(("enum", n))
            elif k in ("struct", "union", "exception"):
                n = self.next(); self.need("{"); f = self.fields("}"); m["structs"][n] = dict(kind=k, fields=f, annot=self.annot()); m["order"].append(("struct", n))
            elif k == "service":
                n = self.next(); base = self.next() if self.got("extends") else None; self.need("{"); fs = []
                while not self.got("}"):
                    oneway = self.got("oneway"); r = self.typ(); fn = self.next(); self.need("("); a = self.fields(")")
                    if self.got("throws"): self.need("("); self.fields(")")
                    self.annot(); self.got(",") or self.got(";")
                    fs.append(dict(name=fn, ret=r, args=a, oneway=oneway))
                m["services"][n] = dict(base=base, functions=fs); self.annot()
            elif k == "const": t = self.typ(); n = self.next(); self.need("="); self.const(); self.got(";") or self.got(",")
            elif k in (";", ","): pass
            else: raise ValueError("interface definition: unexpected %r" % k)
        return m


def load(repo, names=("common", "graph", "meta", "storage", "raftex")):
    d = os.path.join(repo, "src/common/interface")
    return {n: Parser(open(os.path.join(d, n + ".thrift")).read()).parse() for n in names}


def strip(t): return t[1] if isinstance(t, tuple) and t[0] == "annot" else t


def resolve(mods, mod, t):
    """canonical text of a type: base names, enum, struct:<Name>, list<..>, set<..>, map<..,..>"""
    t = strip(t)
    if isinstance(t, tuple):
        return "%s<%s>" % (t[0], ",".join(resolve(mods, mod, x) for x in t[1:]))
    if t in BASE: return {"i8": "byte", "string": "binary"}.get(t, t)
    m, n = (t.split(".", 1) + [None])[:2] if "." in t else (mod, t)
    if n in mods[m]["typedefs"]: return resolve(mods, m, mods[m]["typedefs"][n])
    if n in mods[m]["enums"]: return "i32"
    if n in mods[m]["structs"]: return "struct:" + n
    raise ValueError("unknown type %s in %s" % (t, mod))


def gen_tables(repo, out):
    """idl_tables.h: every field of every structure of the common and graph definitions"""
    mods = load(repo, ("common", "graph"))
    s = ["// generated from src/common/interface\n#pragma once\nstruct IdlField { const char* type_; int id; const char* name; const char* type; int req; };  // req: 0 default, 1 required, 2 optional\nstatic const IdlField IDL[] = {\n"]
    for mn in ("common", "graph"):
        for n, st in mods[mn]["structs"].items():
            for f in st["fields"]:
                s.append('    {"%s", %d, "%s", "%s", %d},\n' % (n, f["id"], f["name"], resolve(mods, mn, f["type"]), {"default": 0, "required": 1, "optional": 2}[f["req"]] if st["kind"] != "union" else 3))
    s.append("};\nstruct IdlEnum { const char* type_; const char* name; long value; };\nstatic const IdlEnum IDL_ENUMS[] = {\n")
    for mn in ("common", "graph"):
        for n, e in mods[mn]["enums"].items():
            for k, v in e["values"]: s.append('    {"%s", "%s", %d},\n' % (n, k, v))
    s.append("};\n")
    write(os.path.join(out, "idl_tables.h"), "".join(s))


def write(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


# ---- C++ types and clients, as far as the code under test uses what the Thrift compiler generates ----
CPPBASE = {"bool": "bool", "byte": "int8_t", "i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "double": "double", "float": "float",
           "string": "std::string", "binary": "std::string", "void": "void"}
DATATYPES = ("Date", "Value", "HostAddr", "KeyValue", "Vertex", "Edge", "Path", "List", "Map", "Set", "DataSet")


def ns(mods, m): return mods[m]["namespaces"]["cpp"].replace(".", "::") + "::cpp2"


def lookup(mods, mod, t):
    m, n = t.split(".", 1) if "." in t else (mod, t)
    return m, n


def cpp(mods, mod, t):
    a = {}
    while isinstance(t, tuple) and t[0] == "annot": a = {**t[2], **a}; t = t[1]
    if "cpp.type" in a: return a["cpp.type"]
    if isinstance(t, tuple):
        d = {"list": "std::vector", "set": "std::set", "map": "std::map"}[t[0]]
        return "%s<%s>" % (a.get("cpp.template", d), ", ".join(cpp(mods, mod, x) for x in t[1:]))
    if t in CPPBASE: return CPPBASE[t]
    m, n = lookup(mods, mod, t)
    d = mods[m]
    if n in d["typedefs"]: return cpp(mods, m, d["typedefs"][n])
    e = d["enums"].get(n) or d["structs"].get(n)
    if e is None: raise ValueError("unknown type %s in %s" % (t, mod))
    return e["annot"].get("cpp.type") or ns(mods, m) + "::" + n


def is_plain(mods, mod, t):
    """returned by value: numbers, booleans and enumerations"""
    t = strip(t)
    if isinstance(t, tuple): return False
    if t in CPPBASE: return t not in ("string", "binary")
    m, n = lookup(mods, mod, t)
    if n in mods[m]["typedefs"]: return is_plain(mods, m, mods[m]["typedefs"][n])
    return n in mods[m]["enums"]


def const_cpp(mods, mod, t, v):
    t0 = strip(t)
    if isinstance(v, tuple) and v[0] == "map" and not isinstance(t0, tuple):
        m, n = lookup(mods, mod, t0)
        st = mods[m]["structs"][n]
        fs = {f["name"]: f for f in st["fields"]}
        return "[] { %s r; %s return r; }()" % (cpp(mods, mod, t), " ".join("r.set_%s(%s);" % (k.strip('"'), const_cpp(mods, m, fs[k.strip('"')]["type"], x)) for k, x in v[1]))
    if isinstance(v, tuple): return "{}"
    if v in ("true", "false") or v.startswith('"'): return v
    if not isinstance(t0, tuple) and t0 not in CPPBASE:
        m, n = lookup(mods, mod, t0)
        if n in mods[m]["enums"]:
            return cpp(mods, mod, t) + "::" + v.split(".")[-1] if not v.lstrip("-").isdigit() else "static_cast<%s>(%s)" % (cpp(mods, mod, t), v)
    return v


def deps(mods, mod, t, out):
    t = strip(t)
    if isinstance(t, tuple):
        for x in t[1:]: deps(mods, mod, x, out)
        return
    if t in CPPBASE: return
    m, n = lookup(mods, mod, t)
    if n in mods[m]["typedefs"]: return deps(mods, m, mods[m]["typedefs"][n], out)
    if m == mod and n in mods[m]["structs"] and "cpp.type" not in mods[m]["structs"][n]["annot"]: out.add(n)


def emit_struct(mods, mod, n, st, o):
    if st["kind"] == "union":
        o.append("class %s {\n public:\n    enum class Type : int { __EMPTY__ = 0, %s };\n" % (n, ", ".join("%s = %d" % (f["name"], f["id"]) for f in st["fields"])))
        o.append(" private:\n    Type type_ = Type::__EMPTY__;\n")
        for f in st["fields"]: o.append("    %s %s_{};\n" % (cpp(mods, mod, f["type"]), f["name"]))
        o.append(" public:\n    Type getType() const { return type_; }\n    void __clear() { *this = %s(); }\n" % n)
        for f in st["fields"]:
            t, a = cpp(mods, mod, f["type"]), f["name"]
            o.append("    %s& set_%s(%s v) { __clear(); type_ = Type::%s; return %s_ = std::move(v); }\n" % (t, a, t, a, a))
            o.append("    const %s& get_%s() const { if (type_ != Type::%s) throw apache::thrift::bad_field_access(); return %s_; }\n" % (t, a, a, a))
            o.append("    %s& mutable_%s() { if (type_ != Type::%s) throw apache::thrift::bad_field_access(); return %s_; }\n" % (t, a, a, a))
        o.append("    bool operator==(const %s& o) const { return type_ == o.type_%s; }\n" % (n, "".join(" && %s_ == o.%s_" % (f["name"], f["name"]) for f in st["fields"])))
        o.append("    bool operator!=(const %s& o) const { return !(*this == o); }\n};\n" % n)
        return
    o.append("class %s {\n public:\n    struct { %s } __isset;\n" % (n, " ".join("bool %s = false;" % f["name"] for f in st["fields"])))
    for f in st["fields"]:
        d = const_cpp(mods, mod, f["type"], f["default"]) if f["default"] is not None else ""
        o.append("    %s %s{%s};\n" % (cpp(mods, mod, f["type"]), f["name"], d))
    o.append("    void __clear() { *this = %s(); }\n" % n)
    for f in st["fields"]:
        t, a = cpp(mods, mod, f["type"]), f["name"]
        o.append("    %s& set_%s(%s v) { %s = std::move(v); __isset.%s = true; return %s; }\n" % (t, a, t, a, a, a))
        if f["req"] == "optional":
            o.append("    const %s* get_%s() const& { return __isset.%s ? &%s : nullptr; }\n    %s* get_%s() & { return __isset.%s ? &%s : nullptr; }\n    %s* get_%s() && = delete;\n" % (t, a, a, a, t, a, a, a, t, a))
            o.append("    apache::thrift::optional_field_ref<%s&> %s_ref() & { return {%s, __isset.%s}; }\n    apache::thrift::optional_field_ref<const %s&> %s_ref() const& { return {%s, __isset.%s}; }\n" % (t, a, a, a, t, a, a, a))
            o.append("    apache::thrift::optional_field_ref<%s&&> %s_ref() && { return {std::move(%s), __isset.%s}; }\n" % (t, a, a, a))
        else:
            if is_plain(mods, mod, f["type"]): o.append("    %s get_%s() const { return %s; }\n" % (t, a, a))
            else: o.append("    const %s& get_%s() const& { return %s; }\n    %s get_%s() && { return std::move(%s); }\n" % (t, a, a, t, a, a))
            o.append("    apache::thrift::field_ref<%s&> %s_ref() & { return {%s, __isset.%s}; }\n    apache::thrift::field_ref<const %s&> %s_ref() const& { return {%s, __isset.%s}; }\n" % (t, a, a, a, t, a, a, a))
            o.append("    apache::thrift::field_ref<%s&&> %s_ref() && { return {std::move(%s), __isset.%s}; }\n" % (t, a, a, a))
    eq = ["(%s == o.%s)" % (f["name"], f["name"]) if f["req"] != "optional" else "(__isset.%s == o.__isset.%s && (!__isset.%s || %s == o.%s))" % ((f["name"],) * 5) for f in st["fields"]]
    o.append("    bool operator==(const %s& o) const { (void)o; return %s; }\n    bool operator!=(const %s& o) const { return !(*this == o); }\n};\n" % (n, " && ".join(eq) or "true", n))


def emit_types(mods, mod):
    d = mods[mod]
    inc = [i.replace(".thrift", "") for i in d["includes"]]
    o = ["// written by tools/idl.py from src/common/interface/%s.thrift\n#pragma once\n#include <map>\n#include <set>\n#include <string>\n#include <unordered_map>\n#include <unordered_set>\n#include <vector>\n" % mod,
         '#include <thrift/lib/cpp/util/EnumUtils.h>\n#include <thrift/lib/cpp2/FieldRef.h>\n#include "common/thrift/ThriftTypes.h"\n']
    o += ['#include "common/datatypes/%s.h"\n' % x for x in DATATYPES]
    o += ['#include "common/interface/gen-cpp2/%s_types.h"\n' % i for i in inc]
    parts = ns(mods, mod).split("::")
    opening, closing = "".join("namespace %s { " % p for p in parts) + "\n", "}" * len(parts) + "\n"
    o.append(opening)
    enums = [(n, e) for n, e in d["enums"].items() if "cpp.type" not in e["annot"]]
    for n, e in enums:
        o.append("enum class %s : int { %s };\n" % (n, ", ".join("%s = %d" % kv for kv in e["values"])))
    structs = {n: s for n, s in d["structs"].items() if "cpp.type" not in s["annot"]}
    done, left = set(), dict(structs)
    for n in structs: o.append("class %s;\n" % n)
    while left:
        ready = [n for n, s in left.items() if not (lambda q: [deps(mods, mod, f["type"], q) for f in s["fields"]] and q or q)(set()) - done - {n}]
        if not ready: raise ValueError("structures of %s refer to each other: %s" % (mod, list(left)))
        for n in ready: emit_struct(mods, mod, n, left.pop(n), o); done.add(n)
    o.append(closing)
    o.append("namespace apache { namespace thrift {\n")
    for n, e in enums:
        q = ns(mods, mod) + "::" + n
        o.append("template <> struct TEnumTraits<%s> {\n    static const char* findName(%s e) { switch (e) { %s default: return nullptr; } }\n" % (q, q, " ".join('case %s::%s: return "%s";' % (q, k, k) for k, _ in e["values"])))
        o.append("    static bool findValue(const char* s, %s* e) { (void)s; (void)e; %s return false; }\n};\n" % (q, " ".join('if (std::string("%s") == s) { *e = %s::%s; return true; }' % (k, q, k) for k, _ in e["values"])))
    o.append("}}\n")
    return "".join(o)


def emit_service(mods, mod, name):
    sv = mods[mod]["services"][name]
    n = name + "AsyncClient"
    o = ["// written by tools/idl.py from src/common/interface/%s.thrift\n#pragma once\n#include <functional>\n#include <memory>\n#include <folly/futures/Future.h>\n#include <thrift/lib/cpp2/async/HeaderClientChannel.h>\n" % mod,
         '#include "common/interface/gen-cpp2/%s_types.h"\n' % mod]
    parts = ns(mods, mod).split("::")
    o.append("".join("namespace %s { " % p for p in parts) + "\nclass %s {\n    std::shared_ptr<apache::thrift::RequestChannel> ch_;\n public:\n" % n)
    o.append("    explicit %s(std::shared_ptr<apache::thrift::RequestChannel> c) : ch_(std::move(c)) {}\n    virtual ~%s() {}\n    apache::thrift::RequestChannel* getChannel() const { return ch_.get(); }\n" % (n, n))
    o.append('    folly::SocketAddress mcPeer() { return static_cast<apache::thrift::HeaderClientChannel*>(ch_.get())->mcPeer(); }\n')
    for f in sv["functions"]:
        r = cpp(mods, mod, f["ret"])
        if len(f["args"]) != 1: raise ValueError("%s.%s: one argument expected" % (name, f["name"]))
        a = cpp(mods, mod, f["args"][0]["type"])
        o.append("    inline static std::function<folly::Future<%s>(%s*, const %s&)> mc_%s;\n" % (r, n, a, f["name"]))
        o.append('    virtual folly::Future<%s> future_%s(const %s& q) { if (!mc_%s) return folly::makeFuture<%s>(folly::exception_wrapper(std::make_exception_ptr(std::runtime_error("no server for %s")))); return mc_%s(this, q); }\n' % (r, f["name"], a, f["name"], r, f["name"], f["name"]))
    o.append("    // f(\"name\", hook) for every function of the service\n    template <class F> static void mcEach(F&& f) { %s }\n" % " ".join('f("%s", mc_%s);' % (f["name"], f["name"]) for f in sv["functions"]))
    o.append("};\n" + "}" * len(parts) + "\n")
    return "".join(o)


def gen_types(repo, out):
    """common/interface/gen-cpp2/*: the types of the definitions and the clients of their services"""
    mods = load(repo, ("common", "meta", "storage"))
    d = os.path.join(out, "common/interface/gen-cpp2")
    os.makedirs(d, exist_ok=True)
    for m in ("common", "meta", "storage"):
        write(os.path.join(d, m + "_types.h"), emit_types(mods, m))
        for s in mods[m]["services"]: write(os.path.join(d, s + "AsyncClient.h"), emit_service(mods, m, s))


if __name__ == "__main__":
    import sys
    gen_tables(sys.argv[1], sys.argv[2])
