// Stand-in for folly::dynamic with the documented accessors and errors.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <initializer_list>
#include <ostream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "folly/Conv.h"
#include "folly/Range.h"
namespace folly {
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
class dynamic {
 public:
    enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
    typedef std::vector<dynamic> Array; typedef std::map<std::string, dynamic> Map;
    struct ObjectMaker;
    typedef Array::iterator iterator; typedef Array::const_iterator const_iterator;
    // object keys are exposed as dynamics, as in folly
    class item_iter {
        Map::const_iterator i_; mutable std::shared_ptr<std::pair<const dynamic, dynamic>> c_;
        struct Ref;
     public:
        typedef std::pair<const dynamic, dynamic> value_type; typedef std::forward_iterator_tag iterator_category; typedef std::ptrdiff_t difference_type; typedef const value_type* pointer; typedef const value_type& reference;
        item_iter() {} explicit item_iter(Map::const_iterator i) : i_(i) {}
        const value_type& operator*() const { if (!c_) c_ = std::make_shared<value_type>(dynamic(i_->first), i_->second); return *c_; }
        const value_type* operator->() const { return &**this; }
        item_iter& operator++() { ++i_; c_.reset(); return *this; } item_iter operator++(int) { auto t = *this; ++*this; return t; }
        bool operator==(const item_iter& o) const { return i_ == o.i_; } bool operator!=(const item_iter& o) const { return i_ != o.i_; }
        Map::const_iterator raw() const { return i_; }
    };
    typedef item_iter const_item_iterator; typedef item_iter item_iterator; typedef item_iter const_key_iterator;
    struct Items { item_iter b, e; item_iter begin() const { return b; } item_iter end() const { return e; } };

    dynamic() : t_(NULLT) {}
    dynamic(std::nullptr_t) : t_(NULLT) {}
    dynamic(const char* s) : t_(STRING), s_(s) {}
    dynamic(std::string s) : t_(STRING), s_(std::move(s)) {}
    dynamic(StringPiece s) : t_(STRING), s_(s.str()) {}
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> dynamic(T v) { if constexpr (std::is_same<T, bool>::value) { t_ = BOOL; b_ = v; } else if constexpr (std::is_floating_point<T>::value) { t_ = DOUBLE; d_ = (double)v; } else { t_ = INT64; i_ = (int64_t)v; } }
    dynamic(const ObjectMaker& o); dynamic(ObjectMaker (*)());
    dynamic(Array a, int) : t_(ARRAY), a_(std::make_shared<Array>(std::move(a))) {}
    template <class It> dynamic(It b, It e, std::enable_if_t<!std::is_arithmetic<It>::value && !std::is_convertible<It, StringPiece>::value, int> = 0) : t_(ARRAY), a_(std::make_shared<Array>(b, e)) {}
    dynamic(const dynamic& o) { *this = o; }
    dynamic(dynamic&& o) noexcept : t_(o.t_), b_(o.b_), i_(o.i_), d_(o.d_), s_(std::move(o.s_)), a_(std::move(o.a_)), m_(std::move(o.m_)) { o.t_ = NULLT; }
    dynamic& operator=(const dynamic& o) { if (this != &o) { auto a = o.a_ ? std::make_shared<Array>(*o.a_) : nullptr; auto m = o.m_ ? std::make_shared<Map>(*o.m_) : nullptr; t_ = o.t_; b_ = o.b_; i_ = o.i_; d_ = o.d_; s_ = o.s_; a_ = a; m_ = m; } return *this; }
    dynamic& operator=(dynamic&& o) noexcept { if (this != &o) { dynamic t(std::move(o)); t_ = t.t_; b_ = t.b_; i_ = t.i_; d_ = t.d_; s_ = std::move(t.s_); a_ = std::move(t.a_); m_ = std::move(t.m_); } return *this; }
    template <class... A> static dynamic array(A&&... a) { Array v; (v.push_back(dynamic(std::forward<A>(a))), ...); return dynamic(std::move(v), 0); }
    static ObjectMaker object(); static ObjectMaker object(dynamic k, dynamic v);

    Type type() const { return t_; }
    const char* typeName() const { static const char* n[] = {"null", "array", "boolean", "double", "int64", "object", "string"}; return n[t_]; }
    bool isNull() const { return t_ == NULLT; } bool isArray() const { return t_ == ARRAY; } bool isBool() const { return t_ == BOOL; } bool isDouble() const { return t_ == DOUBLE; } bool isInt() const { return t_ == INT64; } bool isObject() const { return t_ == OBJECT; } bool isString() const { return t_ == STRING; } bool isNumber() const { return t_ == INT64 || t_ == DOUBLE; }
    const std::string& getString() const { need(STRING); return s_; } std::string& getString() { need(STRING); return s_; }
    int64_t getInt() const { need(INT64); return i_; } double getDouble() const { need(DOUBLE); return d_; } bool getBool() const { need(BOOL); return b_; }
    const char* c_str() const { return getString().c_str(); } StringPiece stringPiece() const { return getString(); }
    std::string asString() const { switch (t_) { case STRING: return s_; case INT64: return to<std::string>(i_); case DOUBLE: return to<std::string>(d_); case BOOL: return b_ ? "1" : "0"; default: throw TypeError(std::string("expected dynamic type `int/double/bool/string', but had type `") + typeName() + "'"); } }
    int64_t asInt() const { switch (t_) { case INT64: return i_; case DOUBLE: return to<int64_t>(d_); case BOOL: return b_; case STRING: return to<int64_t>(s_); default: throw TypeError(std::string("expected dynamic type `int/double/bool/string', but had type `") + typeName() + "'"); } }
    double asDouble() const { switch (t_) { case INT64: return to<double>(i_); case DOUBLE: return d_; case BOOL: return b_; case STRING: return to<double>(s_); default: throw TypeError(std::string("expected dynamic type `int/double/bool/string', but had type `") + typeName() + "'"); } }
    bool asBool() const { switch (t_) { case INT64: return i_ != 0; case DOUBLE: return d_ != 0; case BOOL: return b_; case STRING: return to<bool>(s_); default: throw TypeError(std::string("expected dynamic type `int/double/bool/string', but had type `") + typeName() + "'"); } }
    size_t size() const { switch (t_) { case ARRAY: return a_->size(); case OBJECT: return m_->size(); case STRING: return s_.size(); default: throw TypeError(std::string("expected dynamic type `array/object/string', but had type `") + typeName() + "'"); } }
    bool empty() const { return t_ == NULLT || size() == 0; }
    iterator begin() { need(ARRAY); return a_->begin(); } iterator end() { need(ARRAY); return a_->end(); }
    const_iterator begin() const { need(ARRAY); return a_->begin(); } const_iterator end() const { need(ARRAY); return a_->end(); }
    Items items() const { need(OBJECT); return {item_iter(m_->begin()), item_iter(m_->end())}; }
    std::vector<dynamic> keys() const { need(OBJECT); std::vector<dynamic> r; for (auto& e : *m_) r.push_back(dynamic(e.first)); return r; }
    std::vector<dynamic> values() const { need(OBJECT); std::vector<dynamic> r; for (auto& e : *m_) r.push_back(e.second); return r; }
    item_iter find(StringPiece k) const { need(OBJECT); return item_iter(m_->find(k.str())); }
    item_iter find(const dynamic& k) const { return find(StringPiece(k.getString())); } item_iter find(const char* k) const { return find(StringPiece(k)); } item_iter find(const std::string& k) const { return find(StringPiece(k)); }
    size_t count(StringPiece k) const { need(OBJECT); return m_->count(k.str()); }
    const dynamic& at(const dynamic& k) const { if (t_ == ARRAY) { int64_t i = k.asInt(); if (i < 0 || (size_t)i >= a_->size()) throw std::out_of_range("out of range in dynamic array"); return (*a_)[(size_t)i]; } need(OBJECT); auto f = m_->find(k.getString()); if (f == m_->end()) throw std::out_of_range("couldn't find key " + k.getString() + " in dynamic object"); return f->second; }
    dynamic& at(const dynamic& k) { return const_cast<dynamic&>(static_cast<const dynamic*>(this)->at(k)); }
    const dynamic& operator[](const dynamic& k) const { return at(k); }
    dynamic& operator[](const dynamic& k) { if (t_ == ARRAY) return at(k); need(OBJECT); return (*m_)[k.getString()]; }
    dynamic getDefault(const dynamic& k, const dynamic& d = nullptr) const { need(OBJECT); auto f = m_->find(k.getString()); return f == m_->end() ? d : f->second; }
    dynamic& setDefault(const dynamic& k, const dynamic& d = nullptr) { need(OBJECT); return m_->emplace(k.getString(), d).first->second; }
    const dynamic* get_ptr(const dynamic& k) const { if (t_ != OBJECT) return nullptr; auto f = m_->find(k.getString()); return f == m_->end() ? nullptr : &f->second; }
    template <class V> void insert(const dynamic& k, V&& v) { need(OBJECT); (*m_)[k.getString()] = dynamic(std::forward<V>(v)); }
    template <class K, class V> void operator()(K&&, V&&) = delete;
    size_t erase(StringPiece k) { need(OBJECT); return m_->erase(k.str()); }
    void update(const dynamic& o) { need(OBJECT); for (auto& e : *o.m_) (*m_)[e.first] = e.second; }
    void push_back(dynamic v) { need(ARRAY); a_->push_back(std::move(v)); } void pop_back() { need(ARRAY); a_->pop_back(); } void resize(size_t n, dynamic v = nullptr) { need(ARRAY); a_->resize(n, v); } void reserve(size_t) {}
    void clear() { s_.clear(); if (a_) a_->clear(); if (m_) m_->clear(); }
    bool operator==(const dynamic& o) const { if (isNumber() && o.isNumber() && t_ != o.t_) return asDouble() == o.asDouble(); if (t_ != o.t_) return false; switch (t_) { case NULLT: return true; case BOOL: return b_ == o.b_; case INT64: return i_ == o.i_; case DOUBLE: return d_ == o.d_; case STRING: return s_ == o.s_; case ARRAY: return *a_ == *o.a_; case OBJECT: return *m_ == *o.m_; } return false; }
    bool operator!=(const dynamic& o) const { return !(*this == o); }
 private:
    void need(Type t) const { if (t_ != t) { static const char* n[] = {"null", "array", "boolean", "double", "int64", "object", "string"}; throw TypeError(std::string("expected dynamic type `") + n[t] + "', but had type `" + typeName() + "'"); } }
    Type t_ = NULLT; bool b_ = false; int64_t i_ = 0; double d_ = 0; std::string s_; std::shared_ptr<Array> a_; std::shared_ptr<Map> m_;
    friend struct ObjectMaker;
};
struct dynamic::ObjectMaker { dynamic v; ObjectMaker() { v.t_ = OBJECT; v.m_ = std::make_shared<Map>(); } ObjectMaker& operator()(dynamic k, dynamic x) { v.insert(k, std::move(x)); return *this; } };
inline dynamic::dynamic(const ObjectMaker& o) { *this = o.v; }
inline dynamic::dynamic(ObjectMaker (*)()) { *this = ObjectMaker().v; }
inline dynamic::ObjectMaker dynamic::object() { return ObjectMaker(); }
inline dynamic::ObjectMaker dynamic::object(dynamic k, dynamic x) { ObjectMaker m; m(std::move(k), std::move(x)); return m; }
}
