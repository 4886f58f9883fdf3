#pragma once
#include <utility>
namespace folly {
template <class F>
class ScopeGuardImpl {
 public:
  explicit ScopeGuardImpl(F f) : f_(std::move(f)) {
  }
  ScopeGuardImpl(ScopeGuardImpl&& o) : f_(std::move(o.f_)), on_(o.on_) {
    o.on_ = false;
  }
  ~ScopeGuardImpl() {
    if (on_) {
      f_();
    }
  }
  void dismiss() noexcept {
    on_ = false;
  }
  void rehire() noexcept {
    on_ = true;
  }

 private:
  F f_;
  bool on_{true};
};
template <class F>
ScopeGuardImpl<typename std::decay<F>::type> makeGuard(F&& f) {
  return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f));
}
namespace detail {
enum class ScopeGuardOnExit {};
template <class F>
ScopeGuardImpl<typename std::decay<F>::type> operator+(ScopeGuardOnExit, F&& f) {
  return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f));
}
}  // namespace detail
}  // namespace folly
#define FOLLY_SHIM_CAT2(a, b) a##b
#define FOLLY_SHIM_CAT(a, b) FOLLY_SHIM_CAT2(a, b)
#define SCOPE_EXIT                                       \
  auto FOLLY_SHIM_CAT(scope_exit_, __LINE__) =           \
      ::folly::detail::ScopeGuardOnExit() + [&]() noexcept
