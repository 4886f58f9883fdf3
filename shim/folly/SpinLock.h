#pragma once
#include <atomic>
#include <mutex>
#include <thread>
namespace folly {
class SpinLock {
 public:
  void lock() const {
    int n = 0;
    while (flag_.test_and_set(std::memory_order_acquire)) {
      if (++n > 64) {
        std::this_thread::yield();
      }
    }
  }
  bool try_lock() const {
    return !flag_.test_and_set(std::memory_order_acquire);
  }
  void unlock() const {
    flag_.clear(std::memory_order_release);
  }

 private:
  mutable std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
};
typedef std::unique_lock<SpinLock> SpinLockGuard;
}  // namespace folly
