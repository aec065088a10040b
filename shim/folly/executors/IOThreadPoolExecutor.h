#pragma once
#include <memory>
#include <vector>
#include "folly/io/async/EventBase.h"
namespace folly {
class IOThreadPoolExecutor : public Executor {
    std::vector<std::unique_ptr<EventBase>> v_; size_t next_ = 0;
 public:
    explicit IOThreadPoolExecutor(size_t n) { for (size_t i = 0; i < (n ? n : 1); i++) v_.emplace_back(new EventBase()); }
    EventBase* getEventBase() { return v_[next_++ % v_.size()].get(); }
    void add(Func f) override { getEventBase()->add(std::move(f)); }
    size_t numThreads() const { return v_.size(); }
    void join() {} void stop() {}
    std::vector<std::unique_ptr<EventBase>>& mcBases() { return v_; }
};
}
