#pragma once
#include <cstdint>
#include <cstring>
namespace folly {
struct Endian {  // every supported target is little endian
  template <class T> static T little(T x) { return x; }
};
template <class T> T loadUnaligned(const void* p) { T v; std::memcpy(&v, p, sizeof(T)); return v; }
template <class T> void storeUnaligned(void* p, T v) { std::memcpy(p, &v, sizeof(T)); }
}
