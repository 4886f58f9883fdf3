#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <mutex>
#include <unordered_map>
#include <vector>
namespace folly {
// One object per (instance, thread); destroyed at thread exit or at reset();
// accessAllThreads() locks out creation and destruction meanwhile.
template <class T, class Tag = void>
class ThreadLocalPtr {
  struct Shared {
    std::mutex lock;         // guards items
    std::mutex accessLock;   // held by accessAllThreads
    std::vector<T*> items;
    bool dead = false;
  };
  struct Slot {
    std::shared_ptr<Shared> sh;
    T* p = nullptr;
    Slot() = default;
    Slot(const Slot&) = delete;
    ~Slot() {
      drop();
    }
    void drop() {
      if (!p) {
        return;
      }
      std::lock_guard<std::mutex> a(sh->accessLock);
      {
        std::lock_guard<std::mutex> g(sh->lock);
        auto it = std::find(sh->items.begin(), sh->items.end(), p);
        if (it == sh->items.end()) {
          p = nullptr;  // already destroyed with the ThreadLocalPtr
          return;
        }
        sh->items.erase(it);
      }
      delete p;
      p = nullptr;
    }
  };
  static std::unordered_map<const Shared*, Slot>& slots() {
    static thread_local std::unordered_map<const Shared*, Slot> s;
    return s;
  }

 public:
  ThreadLocalPtr() : sh_(std::make_shared<Shared>()) {
  }
  ~ThreadLocalPtr() {
    std::vector<T*> v;
    {
      std::lock_guard<std::mutex> g(sh_->lock);
      v.swap(sh_->items);
      sh_->dead = true;
    }
    for (T* p : v) {
      delete p;
    }
  }
  ThreadLocalPtr(const ThreadLocalPtr&) = delete;
  T* get() const {
    auto& m = slots();
    auto it = m.find(sh_.get());
    return it == m.end() ? nullptr : it->second.p;
  }
  T* operator->() const {
    return get();
  }
  T& operator*() const {
    return *get();
  }
  explicit operator bool() const {
    return get() != nullptr;
  }
  void reset(T* n = nullptr) {
    Slot& s = slots()[sh_.get()];
    s.drop();
    s.sh = sh_;
    s.p = n;
    if (n) {
      std::lock_guard<std::mutex> a(sh_->accessLock);
      std::lock_guard<std::mutex> g(sh_->lock);
      sh_->items.push_back(n);
    }
  }
  class Accessor {
   public:
    struct iterator {
      typename std::vector<T*>::const_iterator i;
      T& operator*() const {
        return **i;
      }
      T* operator->() const {
        return *i;
      }
      iterator& operator++() {
        ++i;
        return *this;
      }
      bool operator!=(const iterator& o) const {
        return i != o.i;
      }
      bool operator==(const iterator& o) const {
        return i == o.i;
      }
    };
    explicit Accessor(std::shared_ptr<Shared> sh)
        : sh_(std::move(sh)), l_(sh_->accessLock) {
      std::lock_guard<std::mutex> g(sh_->lock);
      copy_ = sh_->items;
    }
    Accessor(Accessor&&) = default;
    iterator begin() const {
      return iterator{copy_.begin()};
    }
    iterator end() const {
      return iterator{copy_.end()};
    }

   private:
    std::shared_ptr<Shared> sh_;
    std::unique_lock<std::mutex> l_;
    std::vector<T*> copy_;
  };
  Accessor accessAllThreads() const {
    return Accessor(sh_);
  }

 private:
  std::shared_ptr<Shared> sh_;
};
template <class T, class Tag = void>
class ThreadLocal {
 public:
  T* get() const {
    T* p = p_.get();
    if (!p) {
      p = new T();
      p_.reset(p);
    }
    return p;
  }
  T* operator->() const {
    return get();
  }
  T& operator*() const {
    return *get();
  }

 private:
  mutable ThreadLocalPtr<T, Tag> p_;
};
}  // namespace folly
