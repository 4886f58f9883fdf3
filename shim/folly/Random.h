#pragma once
#include <cstdint>
#include <random>
namespace folly {
struct Random {
  static std::mt19937_64& g() {
    static thread_local std::mt19937_64 r{std::random_device{}()};
    return r;
  }
  static uint32_t rand32() {
    return static_cast<uint32_t>(g()());
  }
  static uint32_t rand32(uint32_t m) {
    return m ? static_cast<uint32_t>(g()() % m) : 0;
  }
  static uint32_t rand32(uint32_t a, uint32_t b) {
    return a >= b ? 0 : a + rand32(b - a);
  }
  static uint64_t rand64() {
    return g()();
  }
  static uint64_t rand64(uint64_t m) {
    return m ? g()() % m : 0;
  }
  static double randDouble01() {
    return std::uniform_real_distribution<double>(0, 1)(g());
  }
  static bool oneIn(uint32_t n) {
    return n && rand32(n) == 0;
  }
};
}  // namespace folly
