// Stand-in for fbthrift's field references: as far as the code under test uses them.
#pragma once
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace apache { namespace thrift {
struct bad_field_access : std::runtime_error { bad_field_access() : std::runtime_error("accessing unset field") {} };
struct bad_optional_field_access : bad_field_access {};
template <class R> class field_ref {
    typedef std::remove_reference_t<R> T; T* p_; bool* s_; const bool* cs_;
 public:
    typedef std::remove_const_t<T> value_type;
    field_ref(T& v, bool& s) : p_(&v), s_(&s), cs_(&s) {}
    field_ref(T& v, const bool& s) : p_(&v), s_(nullptr), cs_(&s) {}
    field_ref(T&& v, bool& s) : p_(&v), s_(&s), cs_(&s) {}
    template <class U> field_ref& operator=(U&& u) { *p_ = std::forward<U>(u); *s_ = true; return *this; }
    bool is_set() const { return *cs_; }
    bool has_value() const { return true; }
    R value() const { return static_cast<R>(*p_); }
    R operator*() const { return static_cast<R>(*p_); }
    T* operator->() const { return p_; }
    template <class I> auto operator[](I&& i) const -> decltype((*p_)[std::forward<I>(i)]) { return (*p_)[std::forward<I>(i)]; }
    template <class... A> T& emplace(A&&... a) { *p_ = T(std::forward<A>(a)...); *s_ = true; return *p_; }
    void ensure() { *s_ = true; }
};
template <class R> class optional_field_ref {
    typedef std::remove_reference_t<R> T; T* p_; bool* s_; const bool* cs_;
    void need() const { if (!*cs_) throw bad_optional_field_access(); }
 public:
    typedef std::remove_const_t<T> value_type;
    optional_field_ref(T& v, bool& s) : p_(&v), s_(&s), cs_(&s) {}
    optional_field_ref(T& v, const bool& s) : p_(&v), s_(nullptr), cs_(&s) {}
    optional_field_ref(T&& v, bool& s) : p_(&v), s_(&s), cs_(&s) {}
    template <class U> optional_field_ref& operator=(U&& u) { *p_ = std::forward<U>(u); *s_ = true; return *this; }
    template <class... A> T& emplace(A&&... a) { *p_ = T(std::forward<A>(a)...); *s_ = true; return *p_; }
    bool has_value() const { return *cs_; }
    explicit operator bool() const { return *cs_; }
    void reset() { *p_ = T(); *s_ = false; }
    R value() const { need(); return static_cast<R>(*p_); }
    R operator*() const { need(); return static_cast<R>(*p_); }
    T* operator->() const { need(); return p_; }
    template <class U> value_type value_or(U&& u) const { return *cs_ ? value_type(*p_) : static_cast<value_type>(std::forward<U>(u)); }
};
}}
