#pragma once
#include <memory>
namespace folly {
template <typename T, void (*f)(T*)>
struct static_function_deleter {
  void operator()(T* t) const { f(t); }
};
}
