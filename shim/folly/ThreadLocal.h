#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace folly {
namespace detail {
// Runs clean-ups of a thread's entries when the thread exits.
struct TlExit {
  std::vector<std::function<void()>> fns;
  ~TlExit() { for (auto& f : fns) f(); }
};
inline TlExit& tlExit() { static thread_local TlExit t; return t; }
}
// Per-object, per-thread pointer: entries die with their thread or with the
// object, and can be visited with all threads' entries locked.
template <class T, class Tag = void>
class ThreadLocalPtr {
  struct State {
    std::mutex m;
    std::map<std::thread::id, std::unique_ptr<T>> d;
    void drop(std::thread::id id) {
      std::lock_guard<std::mutex> g(m);
      d.erase(id);
    }
  };
 public:
  ThreadLocalPtr() : s_(std::make_shared<State>()) {}
  ~ThreadLocalPtr() { std::lock_guard<std::mutex> g(s_->m); s_->d.clear(); }
  T* get() const {
    std::lock_guard<std::mutex> g(s_->m);
    auto it = s_->d.find(std::this_thread::get_id());
    return it == s_->d.end() ? nullptr : it->second.get();
  }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  explicit operator bool() const { return get() != nullptr; }
  void reset(T* p = nullptr) {
    std::lock_guard<std::mutex> g(s_->m);
    auto id = std::this_thread::get_id();
    bool known = s_->d.count(id) != 0;
    s_->d[id].reset(p);
    if (!known) {
      std::weak_ptr<State> w = s_;
      detail::tlExit().fns.push_back([w, id] { if (auto s = w.lock()) s->drop(id); });
    }
  }
  class Accessor {
   public:
    explicit Accessor(State& s) : l_(s.m) { for (auto& kv : s.d) if (kv.second) v_.push_back(kv.second.get()); }
    struct It { T** p; T& operator*() { return **p; } It& operator++() { ++p; return *this; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; } };
    It begin() { return It{v_.data()}; }
    It end() { return It{v_.data() + v_.size()}; }
   private:
    std::unique_lock<std::mutex> l_;
    std::vector<T*> v_;
  };
  Accessor accessAllThreads() const { return Accessor(*s_); }
 private:
  std::shared_ptr<State> s_;
};
}
