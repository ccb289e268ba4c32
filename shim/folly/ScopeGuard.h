#pragma once
#include <type_traits>
#include <utility>
namespace folly {
template <class F>
class ScopeGuardImpl {
 public:
  explicit ScopeGuardImpl(F f) : f_(std::move(f)) {}
  ScopeGuardImpl(ScopeGuardImpl&& o) : f_(std::move(o.f_)), dismissed_(o.dismissed_) { o.dismissed_ = true; }
  ScopeGuardImpl(const ScopeGuardImpl&) = delete;
  ~ScopeGuardImpl() { if (!dismissed_) f_(); }
  void dismiss() noexcept { dismissed_ = true; }
 private:
  F f_;
  bool dismissed_{false};
};
template <class F>
[[nodiscard]] ScopeGuardImpl<typename std::decay<F>::type> makeGuard(F&& f) {
  return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f));
}
namespace detail {
enum class ScopeGuardOnExit {};
template <class F>
ScopeGuardImpl<typename std::decay<F>::type> operator+(ScopeGuardOnExit, F&& f) {
  return ScopeGuardImpl<typename std::decay<F>::type>(std::forward<F>(f));
}
}
}
#define FOLLY_SHIM_CAT2(a, b) a##b
#define FOLLY_SHIM_CAT(a, b) FOLLY_SHIM_CAT2(a, b)
#define SCOPE_EXIT \
  auto FOLLY_SHIM_CAT(scope_exit_, __COUNTER__) = ::folly::detail::ScopeGuardOnExit() + [&]() noexcept
