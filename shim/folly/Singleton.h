#pragma once
#include <memory>
namespace folly {
template <class T>
class Singleton {
 public:
  static std::shared_ptr<T> try_get() { static std::shared_ptr<T> p = std::make_shared<T>(); return p; }
};
}
