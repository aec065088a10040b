#pragma once
#include <functional>
#include <memory>
#include <type_traits>
namespace folly {
template <class S> class Function;
template <class R, class... A> class Function<R(A...)> {
    struct B { virtual ~B() {} virtual R call(A...) = 0; };
    template <class F> struct I : B { F f; explicit I(F&& g) : f(std::move(g)) {} explicit I(const F& g) : f(g) {} R call(A... a) override { if constexpr (std::is_void<R>::value) f(static_cast<A&&>(a)...); else return f(static_cast<A&&>(a)...); } };
    std::unique_ptr<B> b_;
 public:
    Function() {}
    Function(std::nullptr_t) {}
    template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, Function>::value && std::is_invocable<std::decay_t<F>&, A...>::value>> Function(F&& f) : b_(new I<std::decay_t<F>>(std::forward<F>(f))) {}
    Function(Function&&) noexcept = default; Function& operator=(Function&&) noexcept = default;
    R operator()(A... a) { if (!b_) throw std::bad_function_call(); return b_->call(static_cast<A&&>(a)...); }
    R operator()(A... a) const { if (!b_) throw std::bad_function_call(); return b_->call(static_cast<A&&>(a)...); }
    explicit operator bool() const { return (bool)b_; }
};
typedef Function<void()> Func;
}
