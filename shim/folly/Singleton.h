#pragma once
#include <functional>
#include <memory>
namespace folly {
template <class T, class Tag = void>
class Singleton {
 public:
  Singleton() {
  }
  template <class F>
  explicit Singleton(F) {
  }
  static std::shared_ptr<T> try_get() {
    static std::shared_ptr<T> p(new T());
    return p;
  }
  static std::weak_ptr<T> get_weak() {
    return try_get();
  }
};
}  // namespace folly
