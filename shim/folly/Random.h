#pragma once
#include <random>
#include <cstdint>
namespace folly {
struct Random {
  static std::mt19937_64& gen() { static thread_local std::mt19937_64 g(12345); return g; }
  static uint32_t rand32() { return (uint32_t)gen()(); }
  static uint32_t rand32(uint32_t max) { return max ? (uint32_t)(gen()() % max) : 0; }
  static uint32_t rand32(uint32_t min, uint32_t max) { return min == max ? 0 : min + rand32(max - min); }
  static uint64_t rand64() { return gen()(); }
};
}
