#pragma once
#include <mutex>
namespace folly {
class SpinLock { std::mutex m_; public: SpinLock() {} void lock() { m_.lock(); } void unlock() { m_.unlock(); } bool try_lock() { return m_.try_lock(); } };
typedef std::lock_guard<SpinLock> SpinLockGuard;
class MicroSpinLock { std::mutex m_; public: void init() {} void lock() { m_.lock(); } void unlock() { m_.unlock(); } bool try_lock() { return m_.try_lock(); } };
typedef std::lock_guard<MicroSpinLock> MSLGuard;
}
