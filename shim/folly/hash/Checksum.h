#pragma once
#include <cstdint>
#include <cstddef>
#include <nmmintrin.h>
namespace folly {
inline uint32_t crc32c(const uint8_t* data, size_t n, uint32_t crc = ~0U) {
  while (n >= 8) {
    uint64_t w;
    __builtin_memcpy(&w, data, 8);
    crc = (uint32_t)_mm_crc32_u64(crc, w);
    data += 8;
    n -= 8;
  }
  while (n--) crc = _mm_crc32_u8(crc, *data++);
  return crc;
}
}
