// Stand-in for the fbthrift run-time: the compact and binary protocols as published, plus a protocol that
// identifies fields by name only.  Readers check every access and throw TProtocolException.
#pragma once
#include <cstdint>
#include <memory>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "folly/Range.h"
#include "folly/Likely.h"
#include "folly/CppAttributes.h"

#define FBTHRIFT_CPP_DEFINE_MEMBER_INDIRECTION_FN(...)
namespace apache { namespace thrift {
namespace protocol {
enum TType : uint8_t { T_STOP = 0, T_VOID = 1, T_BOOL = 2, T_BYTE = 3, T_I08 = 3, T_DOUBLE = 4, T_I16 = 6, T_I32 = 8, T_U64 = 9, T_I64 = 10, T_STRING = 11, T_UTF7 = 11, T_STRUCT = 12, T_MAP = 13, T_SET = 14, T_LIST = 15, T_UTF8 = 16, T_UTF16 = 17, T_STREAM = 18, T_FLOAT = 19 };
enum { T_BINARY_PROTOCOL = 0, T_COMPACT_PROTOCOL = 2 };
}
class TException : public std::exception { protected: std::string m_; public: TException() {} explicit TException(std::string m) : m_(std::move(m)) {} const char* what() const noexcept override { return m_.c_str(); } };
class TLibraryException : public TException { public: using TException::TException; };
class TProtocolException : public TException {
 public:
    enum TProtocolExceptionType { UNKNOWN, INVALID_DATA, NEGATIVE_SIZE, SIZE_LIMIT, BAD_VERSION, NOT_IMPLEMENTED, MISSING_REQUIRED_FIELD };
    explicit TProtocolException(const std::string& m = "") : TException(m) {}
    [[noreturn]] static void throwUnionMissingStop() { throw TProtocolException("missing stop marker to terminate a union"); }
    [[noreturn]] static void throwMissingRequiredField(folly::StringPiece f, folly::StringPiece t) { throw TProtocolException("Required field '" + f.str() + "' was not found in serialized data! Struct: " + t.str()); }
    [[noreturn]] static void throwReportedTypeMismatch() { throw TProtocolException("type mismatch"); }
    [[noreturn]] static void throwTruncatedData() { throw TProtocolException("truncated data"); }
    [[noreturn]] static void throwInvalidBoolValue() { throw TProtocolException("bool"); }
};
namespace protocol { using apache::thrift::TProtocolException; }
namespace transport { class TTransportException : public TException { public: enum TTransportExceptionType { UNKNOWN = 0, NOT_OPEN = 1, ALREADY_OPEN = 2, TIMED_OUT = 3, END_OF_FILE = 4 }; TTransportExceptionType t_; explicit TTransportException(TTransportExceptionType t = UNKNOWN, const std::string& m = "") : TException(m), t_(t) {} explicit TTransportException(const std::string& m) : TException(m), t_(UNKNOWN) {} TTransportExceptionType getType() const { return t_; } }; }
namespace type_class { struct nothing; struct integral; struct floating_point; struct binary; struct string; struct enumeration; struct structure; struct variant; template <class> struct list; template <class> struct set; template <class, class> struct map; }

template <class T, class = void> class Cpp2Ops;

namespace detail {
template <class T> struct TccStructTraits;

template <class P> struct ProtocolReaderStructReadState {
    int16_t fieldId = 0; protocol::TType fieldType = protocol::T_STOP; std::string name_; int16_t lastId_ = 0; P* p_ = nullptr;
    void readStructBegin(P* p) { p->structBegin(lastId_); }
    void readStructEnd(P* p) { p->structEnd(lastId_); }
    void readFieldBegin(P* p) { p->readFieldBegin(name_, fieldType, fieldId); }
    void readFieldBeginNoInline(P* p) { readFieldBegin(p); }
    void readFieldEnd(P* p) { p->readFieldEnd(); }
    bool advanceToNextField(P* p, int32_t cur, int32_t next, protocol::TType t) {
        if (cur != 0) readFieldEnd(p);
        readFieldBegin(p);
        if (p->kUsesFieldNames()) return fieldType == protocol::T_STOP && t == protocol::T_STOP;
        return fieldId == next && fieldType == t;
    }
    folly::StringPiece fieldName() const { return name_; }
    void beforeAdvance(...) {} void afterAdvance(...) {}
};

namespace pm {
using namespace protocol;
template <class C, class T, class = void> struct protocol_methods;
template <class T> struct protocol_methods<type_class::integral, T> {
    static constexpr TType tt() { return std::is_same<T, bool>::value ? T_BOOL : sizeof(T) == 1 ? T_BYTE : sizeof(T) == 2 ? T_I16 : sizeof(T) == 4 ? T_I32 : T_I64; }
    template <class P> static void read(P& p, T& o) { if constexpr (std::is_same<T, bool>::value) { bool b; p.readBool(b); o = b; } else if constexpr (sizeof(T) == 1) { int8_t v; p.readByte(v); o = (T)v; } else if constexpr (sizeof(T) == 2) { int16_t v; p.readI16(v); o = (T)v; } else if constexpr (sizeof(T) == 4) { int32_t v; p.readI32(v); o = (T)v; } else { int64_t v; p.readI64(v); o = (T)v; } }
    template <class P> static uint32_t write(P& p, const T& v) { if constexpr (std::is_same<T, bool>::value) return p.writeBool(v); else if constexpr (sizeof(T) == 1) return p.writeByte((int8_t)v); else if constexpr (sizeof(T) == 2) return p.writeI16((int16_t)v); else if constexpr (sizeof(T) == 4) return p.writeI32((int32_t)v); else return p.writeI64((int64_t)v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { if constexpr (std::is_same<T, bool>::value) return p.serializedSizeBool(v); else if constexpr (sizeof(T) == 1) return p.serializedSizeByte(v); else if constexpr (sizeof(T) == 2) return p.serializedSizeI16(v); else if constexpr (sizeof(T) == 4) return p.serializedSizeI32(v); else return p.serializedSizeI64(v); }
};
template <class T> struct protocol_methods<type_class::floating_point, T> {
    static constexpr TType tt() { return T_DOUBLE; }
    template <class P> static void read(P& p, T& o) { double d; p.readDouble(d); o = (T)d; }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeDouble(v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return p.serializedSizeDouble(v); }
};
template <class T> struct protocol_methods<type_class::enumeration, T> {
    static constexpr TType tt() { return T_I32; }
    template <class P> static void read(P& p, T& o) { int32_t v; p.readI32(v); o = (T)v; }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeI32((int32_t)v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return p.serializedSizeI32((int32_t)v); }
};
template <class T> struct protocol_methods<type_class::binary, T> {
    static constexpr TType tt() { return T_STRING; }
    template <class P> static void read(P& p, T& o) { p.readBinary(o); }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeBinary(v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return p.serializedSizeBinary(v); }
};
template <class T> struct protocol_methods<type_class::string, T> : protocol_methods<type_class::binary, T> {};
template <class T> struct protocol_methods<type_class::structure, T> {
    static constexpr TType tt() { return T_STRUCT; }
    template <class P> static void read(P& p, T& o) { Cpp2Ops<T>::read(&p, &o); }
    template <class P> static uint32_t write(P& p, const T& v) { return Cpp2Ops<T>::write(&p, &v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { if constexpr (ZC) return Cpp2Ops<T>::serializedSizeZC(&p, &v); else return Cpp2Ops<T>::serializedSize(&p, &v); }
};
template <class T> struct protocol_methods<type_class::variant, T> : protocol_methods<type_class::structure, T> {};
template <class E, class T> struct protocol_methods<type_class::list<E>, T> {
    typedef typename T::value_type V; typedef protocol_methods<E, V> M;
    static constexpr TType tt() { return T_LIST; }
    template <class P> static void read(P& p, T& o) { TType t; uint32_t n; p.readListBegin(t, n); if (t != M::tt() && n) TProtocolException::throwReportedTypeMismatch(); for (uint32_t i = 0; i < n; i++) { V v{}; M::read(p, v); o.push_back(std::move(v)); } p.readListEnd(); }
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t x = p.writeListBegin(M::tt(), (uint32_t)v.size()); for (const auto& e : v) x += M::write(p, e); return x + p.writeListEnd(); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t x = p.serializedSizeListBegin(M::tt(), (uint32_t)v.size()); for (const auto& e : v) x += M::template serializedSize<ZC>(p, e); return x + p.serializedSizeListEnd(); }
};
template <class E, class T> struct protocol_methods<type_class::set<E>, T> {
    typedef typename T::value_type V; typedef protocol_methods<E, V> M;
    static constexpr TType tt() { return T_SET; }
    template <class P> static void read(P& p, T& o) { TType t; uint32_t n; p.readSetBegin(t, n); if (t != M::tt() && n) TProtocolException::throwReportedTypeMismatch(); for (uint32_t i = 0; i < n; i++) { V v{}; M::read(p, v); o.insert(std::move(v)); } p.readSetEnd(); }
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t x = p.writeSetBegin(M::tt(), (uint32_t)v.size()); for (const auto& e : v) x += M::write(p, e); return x + p.writeSetEnd(); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t x = p.serializedSizeSetBegin(M::tt(), (uint32_t)v.size()); for (const auto& e : v) x += M::template serializedSize<ZC>(p, e); return x + p.serializedSizeSetEnd(); }
};
template <class KE, class VE, class T> struct protocol_methods<type_class::map<KE, VE>, T> {
    typedef typename T::key_type K; typedef typename T::mapped_type V; typedef protocol_methods<KE, K> MK; typedef protocol_methods<VE, V> MV;
    static constexpr TType tt() { return T_MAP; }
    template <class P> static void read(P& p, T& o) { TType a, b; uint32_t n; p.readMapBegin(a, b, n); if (n && (a != MK::tt() || b != MV::tt())) TProtocolException::throwReportedTypeMismatch(); for (uint32_t i = 0; i < n; i++) { K k{}; MK::read(p, k); auto& v = o[std::move(k)]; MV::read(p, v); } p.readMapEnd(); }
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t x = p.writeMapBegin(MK::tt(), MV::tt(), (uint32_t)v.size()); for (const auto& e : v) { x += MK::write(p, e.first); x += MV::write(p, e.second); } return x + p.writeMapEnd(); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t x = p.serializedSizeMapBegin(MK::tt(), MV::tt(), (uint32_t)v.size()); for (const auto& e : v) { x += MK::template serializedSize<ZC>(p, e.first); x += MV::template serializedSize<ZC>(p, e.second); } return x + p.serializedSizeMapEnd(); }
};
}  // namespace pm
}  // namespace detail

// ---- protocols -------------------------------------------------------------------------------
template <class D> struct McReaderBase {
    const uint8_t* b_ = nullptr; const uint8_t* e_ = nullptr; const uint8_t* s_ = nullptr; int depth_ = 0;
    void setInput(folly::StringPiece p) { s_ = b_ = (const uint8_t*)p.data(); e_ = b_ + p.size(); }
    size_t consumed() const { return (size_t)(b_ - s_); }
    D& self() { return static_cast<D&>(*this); }
    uint8_t u8() { if (b_ == e_) TProtocolException::throwTruncatedData(); return *b_++; }
    void raw(void* o, size_t n) { if ((size_t)(e_ - b_) < n) TProtocolException::throwTruncatedData(); memcpy(o, b_, n); b_ += n; }
    template <class S> void take(S& s, size_t n) { if ((size_t)(e_ - b_) < n) TProtocolException::throwTruncatedData(); s.assign((const char*)b_, n); b_ += n; }
    template <class S> void readString(S& s) { self().readBinary(s); }
    void sane(uint32_t n) { if (n > (size_t)(e_ - b_)) TProtocolException::throwTruncatedData(); }
    void readFieldEnd() {} void readListEnd() {} void readSetEnd() {} void readMapEnd() {}
    void skip(protocol::TType t) {
        using namespace protocol; struct G { int& d; G(int& x) : d(x) { if (++d > 64) throw TProtocolException("too deep"); } ~G() { d--; } } g(depth_);
        switch (t) {
            case T_BOOL: { bool v; self().readBool(v); break; } case T_BYTE: { int8_t v; self().readByte(v); break; } case T_I16: { int16_t v; self().readI16(v); break; } case T_I32: { int32_t v; self().readI32(v); break; } case T_I64: { int64_t v; self().readI64(v); break; } case T_DOUBLE: { double v; self().readDouble(v); break; }
            case T_STRING: { std::string s; self().readBinary(s); break; }
            case T_STRUCT: { int16_t l; self().structBegin(l); for (;;) { std::string n; TType ft; int16_t id; self().readFieldBegin(n, ft, id); if (ft == T_STOP) break; skip(ft); } self().structEnd(l); break; }
            case T_LIST: { TType et; uint32_t n; self().readListBegin(et, n); for (uint32_t i = 0; i < n; i++) skip(et); break; }
            case T_SET: { TType et; uint32_t n; self().readSetBegin(et, n); for (uint32_t i = 0; i < n; i++) skip(et); break; }
            case T_MAP: { TType a, b; uint32_t n; self().readMapBegin(a, b, n); for (uint32_t i = 0; i < n; i++) { skip(a); skip(b); } break; }
            default: throw TProtocolException("invalid type");
        }
    }
};
struct McWriterBase {
    std::string* o_ = nullptr;
    void setOutput(std::string* o) { o_ = o; }
    uint32_t put(const void* p, size_t n) { o_->append((const char*)p, n); return (uint32_t)n; }
    uint32_t u8(uint8_t c) { o_->push_back((char)c); return 1; }
    uint32_t writeFieldEnd() { return 0; } uint32_t writeListEnd() { return 0; } uint32_t writeSetEnd() { return 0; } uint32_t writeMapEnd() { return 0; }
    uint32_t serializedSizeListEnd() const { return 0; } uint32_t serializedSizeSetEnd() const { return 0; } uint32_t serializedSizeMapEnd() const { return 0; }
};
class CompactProtocolReader : public McReaderBase<CompactProtocolReader> {
    int16_t last_ = 0; int boolVal_ = -1;
    uint64_t varint() { uint64_t v = 0; for (int sh = 0; sh < 70; sh += 7) { uint8_t c = u8(); if (sh < 64) v |= (uint64_t)(c & 0x7f) << sh; if (!(c & 0x80)) return v; } throw TProtocolException("invalid varint"); }
    static int64_t unzig(uint64_t v) { return (int64_t)(v >> 1) ^ -(int64_t)(v & 1); }
    static protocol::TType tt(int c) { using namespace protocol; static const TType m[] = {T_STOP, T_BOOL, T_BOOL, T_BYTE, T_I16, T_I32, T_I64, T_DOUBLE, T_STRING, T_LIST, T_SET, T_MAP, T_STRUCT, T_FLOAT}; if (c > 13) throw TProtocolException("invalid type"); return m[c]; }
 public:
    static constexpr bool kUsesFieldNames() { return false; }
    void structBegin(int16_t& save) { save = last_; last_ = 0; } void structEnd(int16_t save) { last_ = save; }
    void readFieldBegin(std::string&, protocol::TType& t, int16_t& id) {
        uint8_t c = u8(); int ct = c & 15; if (ct == 0) { t = protocol::T_STOP; id = 0; return; }
        if (c >> 4) id = (int16_t)(last_ + (c >> 4)); else id = (int16_t)unzig(varint());
        t = tt(ct); if (t == protocol::T_BOOL) boolVal_ = ct == 1; last_ = id;
    }
    void readBool(bool& b) { if (boolVal_ >= 0) { b = boolVal_; boolVal_ = -1; } else { uint8_t c = u8(); b = c == 1; } }
    void readByte(int8_t& v) { v = (int8_t)u8(); } void readI16(int16_t& v) { v = (int16_t)unzig(varint()); } void readI32(int32_t& v) { v = (int32_t)unzig(varint()); } void readI64(int64_t& v) { v = unzig(varint()); }
    void readDouble(double& d) { uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | u8(); memcpy(&d, &x, 8); }
    template <class S> void readBinary(S& s) { uint64_t n = varint(); if (n > 0x7fffffff) throw TProtocolException("size"); take(s, n); }
    void readListBegin(protocol::TType& t, uint32_t& n) { uint8_t c = u8(); n = c >> 4; if (n == 15) n = (uint32_t)varint(); t = tt(c & 15); sane(n); }
    void readSetBegin(protocol::TType& t, uint32_t& n) { readListBegin(t, n); }
    void readMapBegin(protocol::TType& a, protocol::TType& b, uint32_t& n) { n = (uint32_t)varint(); a = b = protocol::T_STOP; if (n) { uint8_t c = u8(); a = tt(c >> 4); b = tt(c & 15); } sane(n); }
};
class CompactProtocolWriter : public McWriterBase {
    std::vector<int16_t> st_; int16_t last_ = 0; int16_t boolId_ = -1; bool boolField_ = false;
    uint32_t varint(uint64_t v) { uint32_t n = 0; while (v >= 128) { n += u8((uint8_t)(v | 128)); v >>= 7; } return n + u8((uint8_t)v); }
    static uint64_t zig(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
    static int ct(protocol::TType t) { using namespace protocol; switch (t) { case T_BOOL: return 1; case T_BYTE: return 3; case T_I16: return 4; case T_I32: return 5; case T_I64: return 6; case T_DOUBLE: return 7; case T_STRING: return 8; case T_LIST: return 9; case T_SET: return 10; case T_MAP: return 11; case T_STRUCT: return 12; default: return 0; } }
    uint32_t field(int c, int16_t id) { uint32_t n; if (id > last_ && id - last_ <= 15) n = u8((uint8_t)((id - last_) << 4 | c)); else { n = u8((uint8_t)c); n += varint(zig(id)); } last_ = id; return n; }
 public:
    typedef CompactProtocolReader ProtocolReader;
    static constexpr bool kUsesFieldNames() { return false; }
    uint32_t writeStructBegin(const char*) { st_.push_back(last_); last_ = 0; return 0; }
    uint32_t writeStructEnd() { last_ = st_.back(); st_.pop_back(); return 0; }
    uint32_t writeFieldBegin(const char*, protocol::TType t, int16_t id) { if (t == protocol::T_BOOL) { boolField_ = true; boolId_ = id; return 0; } return field(ct(t), id); }
    uint32_t writeFieldStop() { return u8(0); }
    uint32_t writeBool(bool b) { if (boolField_) { boolField_ = false; return field(b ? 1 : 2, boolId_); } return u8(b ? 1 : 2); }
    uint32_t writeByte(int8_t v) { return u8((uint8_t)v); } uint32_t writeI16(int16_t v) { return varint(zig(v)); } uint32_t writeI32(int32_t v) { return varint(zig(v)); } uint32_t writeI64(int64_t v) { return varint(zig(v)); }
    uint32_t writeDouble(double d) { uint64_t x; memcpy(&x, &d, 8); for (int i = 7; i >= 0; i--) u8((uint8_t)(x >> (8 * i))); return 8; }
    uint32_t writeBinary(folly::StringPiece s) { uint32_t n = varint(s.size()); return n + put(s.data(), s.size()); }
    uint32_t writeString(folly::StringPiece s) { return writeBinary(s); }
    uint32_t writeListBegin(protocol::TType t, uint32_t n) { if (n < 15) return u8((uint8_t)(n << 4 | (uint32_t)ct(t))); uint32_t w = u8((uint8_t)(0xf0 | ct(t))); return w + varint(n); }
    uint32_t writeSetBegin(protocol::TType t, uint32_t n) { return writeListBegin(t, n); }
    uint32_t writeMapBegin(protocol::TType a, protocol::TType b, uint32_t n) { uint32_t w = varint(n); if (n) w += u8((uint8_t)(ct(a) << 4 | ct(b))); return w; }
    uint32_t serializedStructSize(const char*) const { return 0; } uint32_t serializedFieldSize(const char*, protocol::TType, int16_t) const { return 4; } uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool = false) const { return 1; } uint32_t serializedSizeByte(int8_t = 0) const { return 1; } uint32_t serializedSizeI16(int16_t = 0) const { return 3; } uint32_t serializedSizeI32(int32_t = 0) const { return 5; } uint32_t serializedSizeI64(int64_t = 0) const { return 10; } uint32_t serializedSizeDouble(double = 0) const { return 8; }
    uint32_t serializedSizeBinary(folly::StringPiece s) const { return 5 + (uint32_t)s.size(); } uint32_t serializedSizeString(folly::StringPiece s) const { return 5 + (uint32_t)s.size(); } uint32_t serializedSizeZCBinary(folly::StringPiece) const { return 5; }
    uint32_t serializedSizeListBegin(protocol::TType, uint32_t) const { return 6; } uint32_t serializedSizeSetBegin(protocol::TType, uint32_t) const { return 6; } uint32_t serializedSizeMapBegin(protocol::TType, protocol::TType, uint32_t) const { return 6; }
};
template <class D> class BinaryReaderT : public McReaderBase<D> {
 protected:
    uint64_t be(int n) { uint64_t x = 0; for (int i = 0; i < n; i++) x = x << 8 | this->u8(); return x; }
 public:
    static constexpr bool kUsesFieldNames() { return false; }
    void structBegin(int16_t&) {} void structEnd(int16_t) {}
    void readFieldBegin(std::string&, protocol::TType& t, int16_t& id) { t = (protocol::TType)this->u8(); id = t == protocol::T_STOP ? 0 : (int16_t)be(2); }
    void readBool(bool& b) { b = this->u8() != 0; } void readByte(int8_t& v) { v = (int8_t)this->u8(); } void readI16(int16_t& v) { v = (int16_t)be(2); } void readI32(int32_t& v) { v = (int32_t)be(4); } void readI64(int64_t& v) { v = (int64_t)be(8); }
    void readDouble(double& d) { uint64_t x = be(8); memcpy(&d, &x, 8); }
    template <class S> void readBinary(S& s) { int32_t n = (int32_t)be(4); if (n < 0) throw TProtocolException("size"); this->take(s, (size_t)n); }
    void readListBegin(protocol::TType& t, uint32_t& n) { t = (protocol::TType)this->u8(); n = (uint32_t)be(4); this->sane(n); } void readSetBegin(protocol::TType& t, uint32_t& n) { readListBegin(t, n); }
    void readMapBegin(protocol::TType& a, protocol::TType& b, uint32_t& n) { a = (protocol::TType)this->u8(); b = (protocol::TType)this->u8(); n = (uint32_t)be(4); this->sane(n); }
};
class BinaryProtocolReader : public BinaryReaderT<BinaryProtocolReader> {};
class BinaryProtocolWriter : public McWriterBase {
    uint32_t be(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) u8((uint8_t)(v >> (8 * i))); return (uint32_t)n; }
 public:
    typedef BinaryProtocolReader ProtocolReader;
    static constexpr bool kUsesFieldNames() { return false; }
    uint32_t writeStructBegin(const char*) { return 0; } uint32_t writeStructEnd() { return 0; }
    uint32_t writeFieldBegin(const char*, protocol::TType t, int16_t id) { return u8(t) + be((uint16_t)id, 2); } uint32_t writeFieldStop() { return u8(0); }
    uint32_t writeBool(bool b) { return u8(b); } uint32_t writeByte(int8_t v) { return u8((uint8_t)v); } uint32_t writeI16(int16_t v) { return be((uint64_t)v, 2); } uint32_t writeI32(int32_t v) { return be((uint64_t)v, 4); } uint32_t writeI64(int64_t v) { return be((uint64_t)v, 8); }
    uint32_t writeDouble(double d) { uint64_t x; memcpy(&x, &d, 8); return be(x, 8); }
    uint32_t writeBinary(folly::StringPiece s) { be(s.size(), 4); return 4 + put(s.data(), s.size()); } uint32_t writeString(folly::StringPiece s) { return writeBinary(s); }
    uint32_t writeListBegin(protocol::TType t, uint32_t n) { return u8(t) + be(n, 4); } uint32_t writeSetBegin(protocol::TType t, uint32_t n) { return u8(t) + be(n, 4); } uint32_t writeMapBegin(protocol::TType a, protocol::TType b, uint32_t n) { return u8(a) + u8(b) + be(n, 4); }
    uint32_t serializedStructSize(const char*) const { return 0; } uint32_t serializedFieldSize(const char*, protocol::TType, int16_t) const { return 3; } uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool = false) const { return 1; } uint32_t serializedSizeByte(int8_t = 0) const { return 1; } uint32_t serializedSizeI16(int16_t = 0) const { return 2; } uint32_t serializedSizeI32(int32_t = 0) const { return 4; } uint32_t serializedSizeI64(int64_t = 0) const { return 8; } uint32_t serializedSizeDouble(double = 0) const { return 8; }
    uint32_t serializedSizeBinary(folly::StringPiece s) const { return 4 + (uint32_t)s.size(); } uint32_t serializedSizeString(folly::StringPiece s) const { return 4 + (uint32_t)s.size(); } uint32_t serializedSizeZCBinary(folly::StringPiece) const { return 4; }
    uint32_t serializedSizeListBegin(protocol::TType, uint32_t) const { return 5; } uint32_t serializedSizeSetBegin(protocol::TType, uint32_t) const { return 5; } uint32_t serializedSizeMapBegin(protocol::TType, protocol::TType, uint32_t) const { return 6; }
};
// Fields carry their name and wire type but no id, as in the JSON protocols.
class NamedProtocolReader : public BinaryReaderT<NamedProtocolReader> {
 public:
    static constexpr bool kUsesFieldNames() { return true; }
    void readFieldBegin(std::string& name, protocol::TType& t, int16_t& id) { t = (protocol::TType)u8(); if (t == protocol::T_STOP) { id = 0; return; } uint8_t n = u8(); take(name, n); id = -32768; }
};
class NamedProtocolWriter : public BinaryProtocolWriter {
 public:
    typedef NamedProtocolReader ProtocolReader;
    static constexpr bool kUsesFieldNames() { return true; }
    uint32_t writeFieldBegin(const char* name, protocol::TType t, int16_t) { uint32_t n = u8(t); n += u8((uint8_t)strlen(name)); return n + put(name, strlen(name)); }
    uint32_t serializedFieldSize(const char* n, protocol::TType, int16_t) const { return 2 + (uint32_t)strlen(n); }
};
template <class R, class W> struct McSerializer {
    typedef R ProtocolReader; typedef W ProtocolWriter;
    template <class T> static uint32_t serialize(const T& obj, std::string* out) { W w; w.setOutput(out); return Cpp2Ops<T>::write(&w, &obj); }
    template <class S, class T> static S serialize(const T& obj) { std::string o; serialize(obj, &o); return S(o); }
    template <class T> static size_t deserialize(folly::StringPiece in, T& obj) { R r; r.setInput(in); Cpp2Ops<T>::read(&r, &obj); return r.consumed(); }
    template <class T> static T deserialize(folly::StringPiece in) { T t; deserialize(in, t); return t; }
};
typedef McSerializer<CompactProtocolReader, CompactProtocolWriter> CompactSerializer;
typedef McSerializer<BinaryProtocolReader, BinaryProtocolWriter> BinarySerializer;
typedef McSerializer<NamedProtocolReader, NamedProtocolWriter> NamedSerializer;
}}  // namespace apache::thrift
