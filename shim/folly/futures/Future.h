// Stand-in for folly futures: the documented semantics of Promise, Future, SemiFuture and Try the code under test uses.
#pragma once
#include <atomic>
#include <chrono>
#include <functional>
#include <condition_variable>
#include <iterator>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <vector>
#include "folly/Executor.h"
#include "folly/Try.h"
#include "folly/Unit.h"
namespace folly {
struct FutureException : std::logic_error { using std::logic_error::logic_error; };
struct FutureInvalid : FutureException { FutureInvalid() : FutureException("Future invalid") {} };
struct FutureAlreadyRetrieved : FutureException { FutureAlreadyRetrieved() : FutureException("Future already retrieved") {} };
struct FutureNotReady : FutureException { FutureNotReady() : FutureException("Future not ready") {} };
struct FutureTimeout : FutureException { FutureTimeout() : FutureException("Timed out") {} };
struct PromiseException : std::logic_error { using std::logic_error::logic_error; };
struct PromiseInvalid : PromiseException { PromiseInvalid() : PromiseException("Promise invalid") {} };
struct PromiseAlreadySatisfied : PromiseException { PromiseAlreadySatisfied() : PromiseException("Promise already satisfied") {} };
struct BrokenPromise : PromiseException { BrokenPromise() : PromiseException("Broken promise") {} };
inline std::function<bool()> mcFuturePump;   // run by a thread that waits for a future; false: nothing left to run
template <class T> class Future;
template <class T> class SemiFuture;
template <class T> class Promise;

template <class T> struct McCore {
    typedef Function<void(Executor::KeepAlive<>&&, Try<T>&&)> Cb;
    std::mutex m; std::condition_variable cv;
    std::optional<Try<T>> r; Cb cb; bool haveCb = false, fired = false; Executor* ex = nullptr;
    void fire(std::shared_ptr<McCore> self) {   // both result and callback are present
        if (ex) { Executor* e = ex; e->add([self, e]() mutable { self->cb(Executor::KeepAlive<>(e), std::move(*self->r)); self->cb = Cb(); }); }
        else { cb(Executor::KeepAlive<>(), std::move(*r)); cb = Cb(); }
    }
    void setResult(std::shared_ptr<McCore> self, Try<T>&& t) {
        bool go;
        { std::lock_guard<std::mutex> g(m); if (r) throw PromiseAlreadySatisfied(); r.emplace(std::move(t)); go = haveCb && !fired; if (go) fired = true; cv.notify_all(); }
        if (go) fire(self);
    }
    void setCallback(std::shared_ptr<McCore> self, Cb&& c, Executor* e) {
        bool go;
        { std::lock_guard<std::mutex> g(m); if (haveCb) throw std::logic_error("setCallback called twice"); haveCb = true; cb = std::move(c); ex = e; go = r.has_value(); if (go) fired = true; }
        if (go) fire(self);
    }
    void pump() { if (mcFuturePump) while (!ready() && mcFuturePump()) {} }
    void wait() { pump(); std::unique_lock<std::mutex> g(m); while (!r) cv.wait(g); }
    template <class D> bool waitFor(D d) { std::unique_lock<std::mutex> g(m); return cv.wait_for(g, d, [&] { return r.has_value(); }); }
    bool ready() { std::lock_guard<std::mutex> g(m); return r.has_value(); }
};
template <class T> struct isFuture : std::false_type {};
template <class T> struct isFuture<Future<T>> : std::true_type { typedef T type; };
template <class T> struct isFuture<SemiFuture<T>> : std::true_type { typedef T type; };
template <class T, bool = isFuture<T>::value> struct McInner { typedef typename Unit::Lift<T>::type type; };
template <class T> struct McInner<T, true> { typedef typename isFuture<T>::type type; };

template <class T> class Promise {
    std::shared_ptr<McCore<T>> c_; bool got_ = false, done_ = false;
    void need() const { if (!c_) throw PromiseInvalid(); }
    void detach() { if (c_ && !isFulfilled()) { try { c_->setResult(c_, Try<T>(exception_wrapper(BrokenPromise()))); } catch (...) {} } c_.reset(); }
 public:
    Promise() : c_(std::make_shared<McCore<T>>()) {}
    static Promise makeEmpty() { Promise p; p.c_.reset(); return p; }
    ~Promise() { detach(); }
    Promise(Promise&& o) noexcept : c_(std::move(o.c_)), got_(o.got_), done_(o.done_) { o.c_.reset(); }
    Promise& operator=(Promise&& o) noexcept { if (this != &o) { detach(); c_ = std::move(o.c_); got_ = o.got_; done_ = o.done_; } return *this; }
    Promise(const Promise&) = delete;
    bool valid() const { return (bool)c_; }
    bool isFulfilled() const { return !c_ || c_->ready(); }
    Future<T> getFuture(); SemiFuture<T> getSemiFuture();
    void setTry(Try<T>&& t) { need(); if (isFulfilled()) throw PromiseAlreadySatisfied(); auto c = c_; c->setResult(c, std::move(t)); }
    template <class M> void setValue(M&& v) { setTry(Try<T>(T(std::forward<M>(v)))); }
    template <class U = T> std::enable_if_t<std::is_same<U, Unit>::value> setValue() { setTry(Try<T>(T())); }
    void setException(exception_wrapper e) { setTry(Try<T>(std::move(e))); }
    template <class E, class = std::enable_if_t<std::is_base_of<std::exception, E>::value>> void setException(const E& e) { setException(exception_wrapper(std::make_exception_ptr(e))); }
    template <class F> void setWith(F&& f) { need(); if (isFulfilled()) throw PromiseAlreadySatisfied(); setTry(makeTryWith(std::forward<F>(f))); }
    template <class F> void setInterruptHandler(F&&) {}
};
template <class T> class McFutureBase {
 protected:
    std::shared_ptr<McCore<T>> c_; Executor* ex_ = nullptr;
    void need() const { if (!c_) throw FutureInvalid(); }
 public:
    typedef T value_type;
    McFutureBase() {}
    McFutureBase(std::shared_ptr<McCore<T>> c, Executor* e) : c_(std::move(c)), ex_(e) {}
    McFutureBase(McFutureBase&& o) noexcept : c_(std::move(o.c_)), ex_(o.ex_) { o.c_.reset(); }
    McFutureBase& operator=(McFutureBase&& o) noexcept { c_ = std::move(o.c_); ex_ = o.ex_; return *this; }
    McFutureBase(const McFutureBase&) = delete; McFutureBase& operator=(const McFutureBase&) = delete;
    bool valid() const { return (bool)c_; }
    bool isReady() const { need(); return c_->ready(); }
    bool hasValue() const { need(); if (!c_->ready()) throw FutureNotReady(); return c_->r->hasValue(); }
    bool hasException() const { need(); if (!c_->ready()) throw FutureNotReady(); return c_->r->hasException(); }
    Try<T>& result() & { need(); if (!c_->ready()) throw FutureNotReady(); return *c_->r; }
    T& value() & { return result().value(); }
    T value() && { auto c = std::move(c_); if (!c) throw FutureInvalid(); if (!c->ready()) throw FutureNotReady(); return std::move(*c->r).value(); }
    Executor* getExecutor() const { return ex_; }
    template <class F> void setCallback_(F&& f) {
        need(); auto c = c_;
        c->setCallback(c, typename McCore<T>::Cb([f = std::forward<F>(f)](Executor::KeepAlive<>&& k, Try<T>&& t) mutable {
            if constexpr (std::is_invocable<std::decay_t<F>&, Executor::KeepAlive<>&&, Try<T>&&>::value) f(std::move(k), std::move(t)); else f(std::move(t)); }), ex_);
    }
    T get() && { need(); auto c = std::move(c_); c->wait(); return std::move(*c->r).value(); }
    template <class R, class P> T get(std::chrono::duration<R, P> d) && { need(); auto c = std::move(c_); if (!c->waitFor(d)) throw FutureTimeout(); return std::move(*c->r).value(); }
    Try<T> getTry() && { need(); auto c = std::move(c_); c->wait(); return std::move(*c->r); }
    void cancel() {} template <class E> void raise(E&&) {}
    std::shared_ptr<McCore<T>> mcCore() { return c_; }
    // runs f(Try<T>&&) when ready; f's result (value, void, Future) fills the returned future
    template <class F> auto mcThenTry(F&& f) {
        typedef decltype(f(std::declval<Try<T>&&>())) R0; typedef std::decay_t<R0> R; typedef typename McInner<R>::type U;
        need(); Promise<U> p; auto fut = McFutureBase<U>(p.getFuture().mcCore(), ex_);
        auto c = std::move(c_);
        c->setCallback(c, typename McCore<T>::Cb([p = std::move(p), f = std::forward<F>(f)](Executor::KeepAlive<>&&, Try<T>&& t) mutable {
            if constexpr (isFuture<R>::value) {
                try { R inner = f(std::move(t)); inner.setCallback_([p = std::move(p)](Try<U>&& u) mutable { p.setTry(std::move(u)); }); }
                catch (...) { if (p.valid() && !p.isFulfilled()) p.setException(exception_wrapper(std::current_exception())); }
            } else { auto r = makeTryWith([&]() -> R { return f(std::move(t)); }); p.setTry(std::move(r)); }
        }), ex_);
        return fut;
    }
};
template <class T> class SemiFuture : public McFutureBase<T> {
    typedef McFutureBase<T> B;
 public:
    using B::B;
    SemiFuture() {} SemiFuture(B&& b) : B(std::move(b)) {}
    SemiFuture(Future<T>&& f);
    SemiFuture(T v) { Promise<T> p; p.setValue(std::move(v)); this->c_ = p.getFuture().mcCore(); }
    static SemiFuture makeEmpty() { return SemiFuture(); }
    Future<T> via(Executor* e) &&; Future<T> via(Executor::KeepAlive<> e) &&;
    Future<T> toUnsafeFuture() &&;
    SemiFuture& wait() & { this->need(); this->c_->wait(); return *this; }
    SemiFuture&& wait() && { this->need(); this->c_->wait(); return std::move(*this); }
    template <class R, class P> bool wait(std::chrono::duration<R, P> d) { return this->c_->waitFor(d); }
    template <class F> auto deferValue(F&& f) && { auto b = this->mcThenTry([f = std::forward<F>(f)](Try<T>&& t) mutable { return f(std::move(t).value()); }); return SemiFuture<typename decltype(b)::value_type>(std::move(b)); }
    template <class F> auto defer(F&& f) && { auto b = this->mcThenTry(std::forward<F>(f)); return SemiFuture<typename decltype(b)::value_type>(std::move(b)); }
};
template <class T> class Future : public McFutureBase<T> {
    typedef McFutureBase<T> B;
 public:
    using B::B;
    Future() = delete;
    Future(B&& b) : B(std::move(b)) {}
    Future(Future&&) noexcept = default; Future& operator=(Future&&) noexcept = default;
    template <class U, class = std::enable_if_t<std::is_convertible<U, T>::value && !isFuture<std::decay_t<U>>::value && !std::is_same<std::decay_t<U>, exception_wrapper>::value>> Future(U&& v) : B() { Promise<T> p; p.setValue(T(std::forward<U>(v))); this->c_ = p.getFuture().mcCore(); }
    Future(exception_wrapper e) : B() { Promise<T> p; p.setException(std::move(e)); this->c_ = p.getFuture().mcCore(); }
    template <class U, class = std::enable_if_t<!std::is_same<U, T>::value && std::is_convertible<U&&, T>::value>> Future(Future<U>&& o) : B(B(std::move(o).thenValue([](U&& v) { return T(std::move(v)); }))) {}
    static Future makeEmpty() { return Future(B()); }
    Future via(Executor* e) && { Future f(std::move(*this)); f.ex_ = e; return f; }
    Future via(Executor::KeepAlive<> e) && { return std::move(*this).via(e.get()); }
    SemiFuture<T> semi() && { return SemiFuture<T>(B(std::move(this->c_), nullptr)); }
    Future& wait() & { this->need(); this->c_->wait(); return *this; }
    Future&& wait() && { this->need(); this->c_->wait(); return std::move(*this); }
    template <class R, class P> Future& wait(std::chrono::duration<R, P> d) & { this->c_->waitFor(d); return *this; }
    template <class F> auto thenTry(F&& f) && { auto b = this->mcThenTry(std::forward<F>(f)); return Future<typename decltype(b)::value_type>(std::move(b)); }
    template <class F> auto then(F&& f) && {
        if constexpr (std::is_invocable<std::decay_t<F>&, Try<T>&&>::value) return std::move(*this).thenTry(std::forward<F>(f));
        else return std::move(*this).thenValue(std::forward<F>(f)); }
    template <class F> auto thenValue(F&& f) && { auto b = this->mcThenTry([f = std::forward<F>(f)](Try<T>&& t) mutable { return f(std::move(t).value()); }); return Future<typename decltype(b)::value_type>(std::move(b)); }
    template <class F> Future thenError(F&& f) && { auto b = this->mcThenTry([f = std::forward<F>(f)](Try<T>&& t) mutable -> T { if (t.hasException()) { auto r = f(std::move(t.exception())); if constexpr (isFuture<decltype(r)>::value) return std::move(r).get(); else return T(std::move(r)); } return std::move(t).value(); }); return Future(std::move(b)); }
    template <class F> auto onError(F&& f) && { return std::move(*this).thenError(std::forward<F>(f)); }
    template <class F> Future ensure(F&& f) && { auto b = this->mcThenTry([f = std::forward<F>(f)](Try<T>&& t) mutable -> T { f(); return std::move(t).value(); }); return Future(std::move(b)); }
    Future<Unit> unit() && { return std::move(*this).thenValue([](T&&) {}); }
};
template <class T> Future<T> Promise<T>::getFuture() { need(); if (got_) throw FutureAlreadyRetrieved(); got_ = true; return Future<T>(McFutureBase<T>(c_, nullptr)); }
template <class T> SemiFuture<T> Promise<T>::getSemiFuture() { need(); if (got_) throw FutureAlreadyRetrieved(); got_ = true; return SemiFuture<T>(McFutureBase<T>(c_, nullptr)); }
template <class T> SemiFuture<T>::SemiFuture(Future<T>&& f) : B(std::move(f)) {}
template <class T> Future<T> SemiFuture<T>::via(Executor* e) && { return Future<T>(B(std::move(this->c_), e)); }
template <class T> Future<T> SemiFuture<T>::via(Executor::KeepAlive<> e) && { return std::move(*this).via(e.get()); }
template <class T> Future<T> SemiFuture<T>::toUnsafeFuture() && { return Future<T>(B(std::move(this->c_), nullptr)); }
template <class T> Future<std::decay_t<T>> makeFuture(T&& v) { Promise<std::decay_t<T>> p; p.setValue(std::forward<T>(v)); return p.getFuture(); }
inline Future<Unit> makeFuture() { Promise<Unit> p; p.setValue(Unit()); return p.getFuture(); }
template <class T> Future<T> makeFuture(exception_wrapper e) { Promise<T> p; p.setException(std::move(e)); return p.getFuture(); }
template <class T, class E> std::enable_if_t<std::is_base_of<std::exception, E>::value, Future<T>> makeFuture(const E& e) { Promise<T> p; p.setException(e); return p.getFuture(); }
template <class T> Future<T> makeFuture(Try<T>&& t) { Promise<T> p; p.setTry(std::move(t)); return p.getFuture(); }
template <class T> SemiFuture<std::decay_t<T>> makeSemiFuture(T&& v) { return makeFuture(std::forward<T>(v)).semi(); }
template <class F> auto makeFutureWith(F&& f) { typedef decltype(f()) R; if constexpr (isFuture<R>::value) { try { return f(); } catch (...) { return makeFuture<typename isFuture<R>::type>(exception_wrapper(std::current_exception())); } } else return makeFuture(makeTryWith(std::forward<F>(f))); }
inline Future<Unit> via(Executor* e) { return makeFuture().via(e); }
inline Future<Unit> via(Executor::KeepAlive<> e) { return makeFuture().via(e); }
template <class F> auto via(Executor* e, F&& f) { return via(e).thenValue([f = std::forward<F>(f)](Unit&&) mutable { return f(); }); }
template <class F> auto via(Executor::KeepAlive<> e, F&& f) { return via(e.get(), std::forward<F>(f)); }
template <class T> std::pair<Promise<T>, SemiFuture<T>> makePromiseContract() { Promise<T> p; auto f = p.getSemiFuture(); return {std::move(p), std::move(f)}; }
template <class T> std::pair<Promise<T>, Future<T>> makePromiseContract(Executor* e) { Promise<T> p; auto f = p.getFuture().via(e); return {std::move(p), std::move(f)}; }
template <class It> auto collectAll(It b, It e) {
    typedef typename std::iterator_traits<It>::value_type::value_type T;
    struct Ctx { std::vector<Try<T>> v; std::atomic<size_t> left; Promise<std::vector<Try<T>>> p; };
    auto c = std::make_shared<Ctx>(); size_t n = (size_t)std::distance(b, e); c->v.resize(n); c->left = n;
    auto f = c->p.getSemiFuture(); if (!n) { c->p.setValue(std::move(c->v)); return f; }
    for (size_t i = 0; b != e; ++b, ++i) b->setCallback_([c, i](Try<T>&& t) { c->v[i] = std::move(t); if (--c->left == 0) c->p.setValue(std::move(c->v)); });
    return f;
}
template <class C> auto collectAll(C&& c) -> decltype(collectAll(c.begin(), c.end())) { return collectAll(c.begin(), c.end()); }
template <class It> auto collectAllUnsafe(It b, It e) { return collectAll(b, e).toUnsafeFuture(); }
template <class It> auto collect(It b, It e) {
    typedef typename std::iterator_traits<It>::value_type::value_type T;
    return collectAll(b, e).deferValue([](std::vector<Try<T>>&& v) { std::vector<T> r; for (auto& t : v) r.push_back(std::move(t).value()); return r; });
}
template <class C> auto collect(C&& c) -> decltype(collect(c.begin(), c.end())) { return collect(c.begin(), c.end()); }
}  // namespace folly
