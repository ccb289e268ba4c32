#pragma once
#include <mutex>
#include <shared_mutex>
namespace folly {
class RWSpinLock {
 public:
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool try_lock() { return m_.try_lock(); }
  void lock_shared() { m_.lock_shared(); }
  void unlock_shared() { m_.unlock_shared(); }
  bool try_lock_shared() { return m_.try_lock_shared(); }
 private:
  std::shared_mutex m_;
};
}
