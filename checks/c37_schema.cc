// C37: the layout and the look-ups of a schema, for every sequence of field definitions within bounds.
#include "mc.h"
#include "common/base/Base.h"
#include "common/meta/NebulaSchemaProvider.h"
#include <thrift/lib/cpp/util/EnumUtils.h>
#include <stdexcept>
using mc::Ctx;
using std::string;
using std::vector;
using namespace nebula;
using namespace nebula::meta;
typedef nebula::meta::cpp2::PropertyType T;
extern void (*mc_fatal_hook)(const char*, int, const char*);
struct Fatal : std::runtime_error { using std::runtime_error::runtime_error; };
static void throwFatal(const char*, int, const char* m) { throw Fatal(m); }

struct TypeSize { T t; size_t size; };   // size 0: as many bytes as its definition says
static const TypeSize SIZES[] = {
    {T::BOOL, 1}, {T::INT8, 1}, {T::INT16, 2}, {T::INT32, 4}, {T::INT64, 8}, {T::VID, 8}, {T::FLOAT, 4}, {T::DOUBLE, 8}, {T::STRING, 8}, {T::FIXED_STRING, 0},
    {T::TIMESTAMP, 8}, {T::DATE, 4}, {T::TIME, 7}, {T::DATETIME, 11}};
static const int NT = (int)(sizeof SIZES / sizeof *SIZES);
static size_t fixedSize(T t) { for (auto& s : SIZES) if (s.t == t) return s.size; return 999999; }
static string tn(T t) { return apache::thrift::util::enumNameSafe(t); }

struct RefField { string name; T type; size_t len; bool nullable; Expression* def; };
static void compare(Ctx& c, const NebulaSchemaProvider& s, const vector<RefField>& ref, int64_t ver, const string& what) {
    int n = (int)ref.size();
    MC_CHECK(c, s.getVersion() == ver, "version", what << ": version " << s.getVersion() << ", made with " << ver);
    MC_CHECK(c, s.getNumFields() == (size_t)n, "count", what << ": " << s.getNumFields() << " fields, " << n << " were added");
    size_t off = 0, nulls = 0;
    SchemaProviderIf::Iterator it = s.begin();
    for (int i = 0; i < n; ++i) {
        const RefField& r = ref[i]; string w = what + ", field " + std::to_string(i) + " \"" + r.name + "\"";
        size_t size = fixedSize(r.type); if (!size) size = r.len;
        const SchemaProviderIf::Field* f = s.field((int64_t)i);
        MC_CHECK(c, f != nullptr, "missing", w << ": no field at its place");
        MC_CHECK(c, string(f->name()) == r.name, "name", w << " is called \"" << f->name() << "\"");
        MC_CHECK(c, f->type() == r.type, "type", w << ": type " << tn(f->type()) << ", defined as " << tn(r.type));
        MC_CHECK(c, f->nullable() == r.nullable, "nullable", w << ": nullable is " << f->nullable());
        MC_CHECK(c, f->hasDefault() == (r.def != nullptr) && f->defaultValue() == r.def, "default", w << ": its default value is not the one it was defined with");
        MC_CHECK(c, f->size() == size, "size", w << " of type " << tn(r.type) << " takes " << f->size() << " bytes, not " << size);
        MC_CHECK(c, f->offset() == off, "offset", w << " starts at " << f->offset() << ", the fields before it end at " << off);
        if (r.nullable) { MC_CHECK(c, f->nullFlagPos() == nulls, "null-flag", w << ": null flag " << f->nullFlagPos() << ", " << nulls << " nullable fields are before it"); ++nulls; }
        off += size;
        MC_CHECK(c, s.getFieldIndex(r.name) == i, "index", w << ": index " << s.getFieldIndex(r.name) << " by name");
        MC_CHECK(c, s.getFieldName(i) && string(s.getFieldName(i)) == r.name, "name-at", w << ": another name by index");
        MC_CHECK(c, s.getFieldType((int64_t)i) == r.type && s.getFieldType(r.name) == r.type, "type-of", w << ": types " << tn(s.getFieldType((int64_t)i)) << " by index and " << tn(s.getFieldType(r.name)) << " by name");
        MC_CHECK(c, s.field(r.name) == f, "field-by-name", w << ": another field by name");
        MC_CHECK(c, (bool)it && &*it == f && it->name() == f->name() && !(it == s.end()), "iterate", w << ": iterating, something else is at this place");
        ++it;
    }
    MC_CHECK(c, !(bool)it && it == s.end(), "iterate-end", what << ": the iteration does not end after " << n << " fields");
    ++it; MC_CHECK(c, !(bool)it && it == s.end(), "iterate-past", what << ": the iteration goes on after its end");
    MC_CHECK(c, (n == 0) == (s.begin() == s.end()), "begin-end", what << ": begin() and end() compare wrongly");
    MC_CHECK(c, s.getNumNullableFields() == nulls, "nullables", what << ": " << s.getNumNullableFields() << " nullable fields, " << nulls << " were added");
    MC_CHECK(c, s.size() == off, "total", what << ": a row takes " << s.size() << " bytes, its fields take " << off);
    for (int k = 0; k <= n + 1; ++k) {
        auto j = s.begin(); auto& moved = j + (uint16_t)k;
        MC_CHECK(c, k < n ? (bool)moved && &*moved == s.field((int64_t)k) : !(bool)moved && moved == s.end(), "advance", what << ": " << k << " steps from the beginning lead elsewhere");
    }
    for (int64_t i : {(int64_t)-1, INT64_MIN, (int64_t)n, (int64_t)n + 1, INT64_MAX, (int64_t)1 << 32})
        MC_CHECK(c, s.field(i) == nullptr && s.getFieldName(i) == nullptr && s.getFieldType(i) == T::UNKNOWN, "no-such-index", what << ": something is found at index " << i);
    for (string nm : {string(""), string("nothing"), string("A"), string("a "), string("aa")}) {
        bool used = false; for (auto& r : ref) used |= r.name == nm; if (used) continue;
        MC_CHECK(c, s.getFieldIndex(nm) == -1 && s.field(nm) == nullptr && s.getFieldType(nm) == T::UNKNOWN, "no-such-name", what << ": something is found as \"" << nm << "\"");
    }
    c.step();
}
static const char* NAMES[] = {"a", "b", "ab", "a_very_long_property_name_that_does_not_fit_any_small_buffer"};
static Expression* defOf(int i) { static long tokens[8]; return reinterpret_cast<Expression*>(&tokens[i]); }   // only kept and given back
static void layout(Ctx& c) {
    NebulaSchemaProvider s(7); vector<RefField> ref; string what = "fields";
    int n = c.choose(c.thorough() ? 5 : 4, "number of fields");
    for (int i = 0; i < n; ++i) {
        bool all = i < 3;   // beyond the third: widths 1, 4, 8 and of the definition
        static const int FEW[] = {0, 3, 4, 9};
        int ti = all ? c.choose(NT, "type") : FEW[c.choose(4, "type")]; T t = SIZES[ti].t; size_t len = 0;
        if (t == T::FIXED_STRING) len = c.choose(2, "length") ? 1 : 13;
        else len = n == 1 && c.flip() ? 5 : 0;   // the length means nothing for other types
        bool nullable = c.choose(2, "nullable"); Expression* def = c.choose(2, "default") ? defOf(i) : nullptr;
        s.addField(NAMES[i], t, len, nullable, def);
        ref.push_back({NAMES[i], t, len, nullable, def});
        what += " " + tn(t) + (nullable ? "?" : "") + (def ? "=" : "");
        if (i + 1 < n) { compare(c, s, ref, 7, what); }
    }
    compare(c, s, ref, 7, what);
    c.state(what);
}
static void sizes(Ctx& c) {   // every type of the interface definition, every length
    int raw = c.choose(40, "type"); T t = (T)raw;
    if (!apache::thrift::TEnumTraits<T>::findName(t)) throw mc::Abandon();
    static const size_t LEN[] = {0, 1, 2, 8, 255, 256, 32767, 65536, (size_t)1 << 31}; size_t len = LEN[c.choose(9, "length")];
    bool viaAdd = c.choose(2, "how"); size_t got = 0; bool fatal = false;
    NebulaSchemaProvider s(0);
    mc_fatal_hook = throwFatal;
    try { if (viaAdd) { s.addField("f", t, len); got = s.size(); } else got = NebulaSchemaProvider::fieldSize(t, len); } catch (Fatal&) { fatal = true; }
    mc_fatal_hook = nullptr; c.step();
    size_t want = fixedSize(t); bool bad = t == T::UNKNOWN || (t == T::FIXED_STRING && len == 0);
    if (t == T::FIXED_STRING) want = len;
    MC_CHECK(c, fatal == bad, "refused", "a field of type " << tn(t) << " and length " << len << (fatal ? " ends the process" : " is taken"));
    if (!bad) MC_CHECK(c, got == want, "width", "a field of type " << tn(t) << " and length " << len << " takes " << got << " bytes, not " << want);
    else MC_CHECK(c, s.getNumFields() == 0, "half-added", "a refused field stays behind");
    c.outcome(tn(t) + (bad ? " refused" : " " + std::to_string(got)));
}
static void ttl(Ctx& c) {
    static const int64_t DUR[] = {INT64_MIN, -1, 0, 1, 100, INT64_MAX};
    NebulaSchemaProvider s(3); s.addField("a", T::TIMESTAMP);
    int rounds = c.choose(2, "properties set before") + 1; nebula::meta::cpp2::SchemaProp p; bool haveCol = false; string col; bool haveDur = false; int64_t dur = 0;
    for (int r = 0; r < rounds; ++r) {
        p = nebula::meta::cpp2::SchemaProp(); haveCol = haveDur = false; col = ""; dur = 0;
        switch (c.choose(4, "ttl column")) { case 0: break; case 1: haveCol = true; p.set_ttl_col(""); break; case 2: haveCol = true; p.set_ttl_col(col = "a"); break; default: haveCol = true; p.set_ttl_col(col = string("b\0c", 3)); }
        int d = c.choose(7, "ttl duration"); if (d) { haveDur = true; p.set_ttl_duration(dur = DUR[d - 1]); }
        if (c.choose(2, "comment")) p.set_comment("note");
        s.setProp(p);
    }
    MC_CHECK(c, s.getProp() == p, "properties", "the properties are not those last set");
    auto r = s.getTTLInfo(); c.step();
    bool want = haveCol && !col.empty() && haveDur && dur > 0;
    MC_CHECK(c, r.ok() == want, "ttl", "column " << (haveCol ? "\"" + col + "\"" : string("unset")) << ", duration " << (haveDur ? std::to_string(dur) : string("unset")) << ": values " << (r.ok() ? "expire" : "never expire"));
    if (want) MC_CHECK(c, r.value().first == col && r.value().second == dur, "ttl-value", "column \"" << col << "\", duration " << dur << ": told as \"" << r.value().first << "\", " << r.value().second);
    c.outcome(want ? "expires" : "never");
}
// Schemas of many fields: types in every rotation and stride, nullable fields and defaults in every period.
static void wide(Ctx& c) {
    int n = c.thorough() ? 140 : 40;
    int start = c.choose(NT, "first type"), stride = c.choose(5, "stride"), np = c.choose(4, "null period"), dp = c.choose(3, "default period");
    NebulaSchemaProvider s(3); vector<RefField> ref; vector<string> names; names.reserve(n);
    string what = "many fields";
    for (int i = 0; i < n; ++i) {
        T t = SIZES[(start + i * stride) % NT].t; size_t len = t == T::FIXED_STRING ? 1 + i * 7 : 0;
        bool nullable = np && i % np == 0; Expression* def = dp && i % (dp + 1) == 0 ? defOf(i % 8) : nullptr;
        string name = (i % 2 ? "f" : "column_") + std::to_string(i);
        s.addField(name, t, len, nullable, def); ref.push_back({name, t, len, nullable, def});
        if (i < 20 || i % 16 == 15 || i + 1 == n) compare(c, s, ref, 3, what);
    }
    c.outcome("wide");
}
static void versions(Ctx& c) {
    static const int64_t V[] = {-1, 0, 1, 2, 65535, INT64_MAX};
    int64_t v = V[c.choose(6, "version")]; NebulaSchemaProvider s(v); compare(c, s, {}, v, "no fields");
    NebulaSchemaProvider other(v); other.addField("a", T::BOOL); s.addField("a", T::BOOL);
    MC_CHECK(c, !(s.begin() == other.begin()) && s.begin() == s.begin(), "iterators-of-two", "iterators of two schemas compare equal, or of the same one unequal");
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C37", {
        {"layout", layout, false, "every sequence of up to 3 (4) fields: 14 types, fixed strings of 1 and 13 bytes, nullable or not, with and without a default value; every look-up and the iteration after each field"},
        {"wide", wide, false, "schemas growing to 40 (140) fields: 14 first types x 5 strides x 4 periods of nullable fields x 3 of defaults; every look-up and the iteration as they grow"},
        {"sizes", sizes, false, "every type of the interface definition with 9 lengths, added and asked for"},
        {"ttl", ttl, false, "4 time-to-live columns x 7 durations x comment, set once or twice"},
        {"versions", versions, false, "6 version numbers, empty schemas, iterators of two schemas"},
    }, {"the field types are those of meta.thrift, read from it for this check; the names of the fields of a schema differ",
        "a field's null flag is asked for only where the field is nullable"});
}
