#pragma once
#include <optional>
namespace folly {
template <class T>
class Optional : public std::optional<T> {
 public:
  using std::optional<T>::optional;
  T* get_pointer() {
    return this->has_value() ? &this->value() : nullptr;
  }
  bool hasValue() const {
    return this->has_value();
  }
  void clear() {
    this->reset();
  }
};
using None = std::nullopt_t;
inline constexpr std::nullopt_t none = std::nullopt;
}  // namespace folly
