// Stand-in for folly/RWSpinLock.h: the same exclusion, built from a mutex and a condition variable.
#pragma once
#include <condition_variable>
#include <mutex>
namespace folly {
class RWSpinLock {
    std::mutex m_; std::condition_variable cv_; int readers_ = 0; bool writer_ = false;
 public:
    RWSpinLock() {}
    RWSpinLock(const RWSpinLock&) = delete; RWSpinLock& operator=(const RWSpinLock&) = delete;
    void lock() { std::unique_lock<std::mutex> g(m_); while (writer_ || readers_) cv_.wait(g); writer_ = true; }
    void unlock() { std::lock_guard<std::mutex> g(m_); writer_ = false; cv_.notify_all(); }
    void lock_shared() { std::unique_lock<std::mutex> g(m_); while (writer_) cv_.wait(g); readers_++; }
    void unlock_shared() { std::lock_guard<std::mutex> g(m_); readers_--; cv_.notify_all(); }
    bool try_lock() { std::lock_guard<std::mutex> g(m_); if (writer_ || readers_) return false; writer_ = true; return true; }
    bool try_lock_shared() { std::lock_guard<std::mutex> g(m_); if (writer_) return false; readers_++; return true; }
    class ReadHolder {
        RWSpinLock* l_;
     public:
        explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock_shared(); }
        explicit ReadHolder(RWSpinLock& l) : ReadHolder(&l) {}
        ReadHolder(ReadHolder&& o) noexcept : l_(o.l_) { o.l_ = nullptr; }
        ReadHolder(const ReadHolder&) = delete;
        ReadHolder& operator=(ReadHolder&& o) noexcept { std::swap(l_, o.l_); return *this; }
        ~ReadHolder() { if (l_) l_->unlock_shared(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock_shared(); l_ = l; if (l_) l_->lock_shared(); }
    };
    class WriteHolder {
        RWSpinLock* l_;
     public:
        explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock(); }
        explicit WriteHolder(RWSpinLock& l) : WriteHolder(&l) {}
        WriteHolder(WriteHolder&& o) noexcept : l_(o.l_) { o.l_ = nullptr; }
        WriteHolder(const WriteHolder&) = delete;
        WriteHolder& operator=(WriteHolder&& o) noexcept { std::swap(l_, o.l_); return *this; }
        ~WriteHolder() { if (l_) l_->unlock(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock(); l_ = l; if (l_) l_->lock(); }
    };
};
typedef RWSpinLock SharedMutex;
}
