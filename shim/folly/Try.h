#pragma once
#include <optional>
#include "folly/ExceptionWrapper.h"
#include "folly/Unit.h"
namespace folly {
class UsingUninitializedTry : public std::logic_error { public: UsingUninitializedTry() : std::logic_error("Using uninitialized try") {} };
template <class T> class Try {
    std::optional<T> v_; exception_wrapper e_;
 public:
    typedef T element_type;
    Try() {}
    Try(T&& v) : v_(std::move(v)) {}
    Try(const T& v) : v_(v) {}
    explicit Try(exception_wrapper e) : e_(std::move(e)) {}
    bool hasValue() const { return v_.has_value(); }
    bool hasException() const { return (bool)e_; }
    T& value() & { throwIfFailed(); return *v_; }
    T&& value() && { throwIfFailed(); return std::move(*v_); }
    const T& value() const& { throwIfFailed(); return *v_; }
    T& operator*() { return value(); } T* operator->() { return &value(); }
    void throwIfFailed() const { if (e_) e_.throw_exception(); if (!v_) throw UsingUninitializedTry(); }
    void throwUnlessValue() const { throwIfFailed(); }
    exception_wrapper& exception() { return e_; }
    const exception_wrapper& exception() const { return e_; }
};
template <> class Try<void> { exception_wrapper e_; public: typedef void element_type; Try() {} explicit Try(exception_wrapper e) : e_(std::move(e)) {} bool hasValue() const { return !e_; } bool hasException() const { return (bool)e_; } void value() const { if (e_) e_.throw_exception(); } exception_wrapper& exception() { return e_; } const exception_wrapper& exception() const { return e_; } };
template <class F> auto makeTryWith(F&& f) -> Try<typename Unit::Lift<std::decay_t<decltype(f())>>::type> {
    typedef decltype(f()) R; typedef typename Unit::Lift<std::decay_t<R>>::type U;
    try { if constexpr (std::is_void<R>::value) { f(); return Try<U>(Unit()); } else return Try<U>(U(f())); } catch (...) { return Try<U>(exception_wrapper(std::current_exception())); }
}
}
