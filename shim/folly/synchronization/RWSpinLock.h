#pragma once
#include <atomic>
#include <cstdint>
#include <mutex>
#include <shared_mutex>
#include <thread>
namespace folly {
class RWSpinLock {
 public:
  RWSpinLock() = default;
  RWSpinLock(const RWSpinLock&) = delete;
  RWSpinLock& operator=(const RWSpinLock&) = delete;
  bool try_lock() {
    int32_t e = 0;
    return v_.compare_exchange_strong(e, -1, std::memory_order_acq_rel);
  }
  void lock() {
    for (int n = 0; !try_lock();) {
      if (++n > 64) {
        std::this_thread::yield();
      }
    }
  }
  void unlock() {
    v_.store(0, std::memory_order_release);
  }
  bool try_lock_shared() {
    int32_t e = v_.load(std::memory_order_relaxed);
    return e >= 0 &&
           v_.compare_exchange_strong(e, e + 1, std::memory_order_acq_rel);
  }
  void lock_shared() {
    for (int n = 0; !try_lock_shared();) {
      if (++n > 64) {
        std::this_thread::yield();
      }
    }
  }
  void unlock_shared() {
    v_.fetch_sub(1, std::memory_order_release);
  }
  class ReadHolder {
   public:
    explicit ReadHolder(RWSpinLock* l) : l_(l) {
      if (l_) {
        l_->lock_shared();
      }
    }
    explicit ReadHolder(RWSpinLock& l) : ReadHolder(&l) {
    }
    ~ReadHolder() {
      if (l_) {
        l_->unlock_shared();
      }
    }
    ReadHolder(const ReadHolder&) = delete;

   private:
    RWSpinLock* l_;
  };
  class WriteHolder {
   public:
    explicit WriteHolder(RWSpinLock* l) : l_(l) {
      if (l_) {
        l_->lock();
      }
    }
    explicit WriteHolder(RWSpinLock& l) : WriteHolder(&l) {
    }
    ~WriteHolder() {
      if (l_) {
        l_->unlock();
      }
    }
    WriteHolder(const WriteHolder&) = delete;

   private:
    RWSpinLock* l_;
  };

 private:
  std::atomic<int32_t> v_{0};
};
}  // namespace folly
