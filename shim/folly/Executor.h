#pragma once
#include <cstdint>
#include "folly/Function.h"
namespace folly {
class Executor {
 public:
    virtual ~Executor() {}
    virtual void add(Func) = 0;
    virtual uint8_t getNumPriorities() const { return 1; }
    template <class E = Executor> class KeepAlive { E* e_ = nullptr; public: KeepAlive() {} KeepAlive(E* e) : e_(e) {} E* get() const { return e_; } E* operator->() const { return e_; } E& operator*() const { return *e_; } explicit operator bool() const { return e_; } void reset() { e_ = nullptr; } };
    template <class E> static KeepAlive<E> getKeepAliveToken(E* e) { return KeepAlive<E>(e); }
    template <class E> static KeepAlive<E> getKeepAliveToken(E& e) { return KeepAlive<E>(&e); }
};
template <class E> Executor::KeepAlive<E> getKeepAliveToken(E* e) { return Executor::KeepAlive<E>(e); }
class InlineExecutor : public Executor { public: static InlineExecutor& instance() { static InlineExecutor e; return e; } void add(Func f) override { f(); } };
class QueuedImmediateExecutor : public InlineExecutor { public: static QueuedImmediateExecutor& instance() { static QueuedImmediateExecutor e; return e; } };
}
