#pragma once
#include <type_traits>
#include <utility>
namespace folly {
template <class F> class mcScopeGuard { F f_; bool on_ = true; public: explicit mcScopeGuard(F f) : f_(std::move(f)) {} mcScopeGuard(mcScopeGuard&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; } ~mcScopeGuard() { if (on_) f_(); } void dismiss() { on_ = false; } };
template <class F> mcScopeGuard<std::decay_t<F>> makeGuard(F&& f) { return mcScopeGuard<std::decay_t<F>>(std::forward<F>(f)); }
enum class mcSgExit {};
template <class F> mcScopeGuard<std::decay_t<F>> operator+(mcSgExit, F&& f) { return mcScopeGuard<std::decay_t<F>>(std::forward<F>(f)); }
}
#define MC_SG_CAT2(a, b) a##b
#define MC_SG_CAT(a, b) MC_SG_CAT2(a, b)
#define SCOPE_EXIT auto MC_SG_CAT(mcScopeExit, __COUNTER__) = ::folly::mcSgExit() + [&]()
