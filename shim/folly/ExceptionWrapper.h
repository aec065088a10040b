#pragma once
#include <exception>
#include <string>
#include <typeinfo>
#include <type_traits>
namespace folly {
class exception_wrapper {
    std::exception_ptr p_;
 public:
    exception_wrapper() {}
    exception_wrapper(std::exception_ptr p) : p_(std::move(p)) {}
    template <class E, class = std::enable_if_t<std::is_base_of<std::exception, std::decay_t<E>>::value>> exception_wrapper(E&& e) : p_(std::make_exception_ptr(std::forward<E>(e))) {}
    explicit operator bool() const { return (bool)p_; }
    bool has_exception_ptr() const { return (bool)p_; }
    std::exception_ptr to_exception_ptr() const { return p_; }
    [[noreturn]] void throw_exception() const { std::rethrow_exception(p_); }
    std::string what() const { if (!p_) return ""; try { std::rethrow_exception(p_); } catch (const std::exception& e) { return std::string(typeid(e).name()) + ": " + e.what(); } catch (...) { return "<unknown exception>"; } }
    template <class E> bool is_compatible_with() const { if (!p_) return false; try { std::rethrow_exception(p_); } catch (const E&) { return true; } catch (...) { return false; } }
    template <class E> const E* get_exception() const { if (!p_) return nullptr; try { std::rethrow_exception(p_); } catch (const E& e) { return &e; } catch (...) { return nullptr; } }
};
template <class E, class... A> exception_wrapper make_exception_wrapper(A&&... a) { return exception_wrapper(E(std::forward<A>(a)...)); }
}
