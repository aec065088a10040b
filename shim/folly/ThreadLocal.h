// Stand-in for folly/ThreadLocal.h: one object per thread and instance, destroyed with the instance or the thread.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
namespace folly {
template <class T, class Tag = void> class ThreadLocal {
    mutable std::mutex m_; mutable std::map<pthread_t, std::unique_ptr<T>> v_; std::function<T*()> mk_;
 public:
    ThreadLocal() : mk_([] { return new T(); }) {}
    template <class F, class = std::enable_if_t<std::is_invocable<F>::value>> explicit ThreadLocal(F&& f) : mk_([f] { return new T(f()); }) {}
    T* get() const { std::lock_guard<std::mutex> g(m_); auto& p = v_[pthread_self()]; if (!p) p.reset(mk_()); return p.get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    void reset(T* n = nullptr) { std::lock_guard<std::mutex> g(m_); v_[pthread_self()].reset(n); }
};
template <class T, class Tag = void> class ThreadLocalPtr {
    mutable std::mutex m_; mutable std::map<pthread_t, std::unique_ptr<T>> v_;
 public:
    T* get() const { std::lock_guard<std::mutex> g(m_); auto& p = v_[pthread_self()]; return p.get(); }
    T* operator->() const { return get(); } T& operator*() const { return *get(); } explicit operator bool() const { return get(); }
    void reset(T* n = nullptr) { std::lock_guard<std::mutex> g(m_); v_[pthread_self()].reset(n); }
};
}
