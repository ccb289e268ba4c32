#pragma once
#include <mutex>
namespace folly {
// A mutex has the same exclusion contract and behaves well on few cores.
class SpinLock {
 public:
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
 private:
  std::mutex m_;
};
using SpinLockGuard = std::lock_guard<SpinLock>;
}
