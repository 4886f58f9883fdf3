#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
namespace folly {
// CRC-32C (Castagnoli), reflected, no final inversion: same contract as
// folly::crc32c
inline uint32_t crc32c(const uint8_t* data, size_t n,
                       uint32_t start = ~uint32_t(0)) {
  static const std::array<uint32_t, 256> table = [] {
    std::array<uint32_t, 256> t{};
    for (uint32_t i = 0; i < 256; ++i) {
      uint32_t c = i;
      for (int k = 0; k < 8; ++k) {
        c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1;
      }
      t[i] = c;
    }
    return t;
  }();
  uint32_t c = start;
  for (size_t i = 0; i < n; ++i) {
    c = table[(c ^ data[i]) & 0xff] ^ (c >> 8);
  }
  return c;
}
}  // namespace folly
