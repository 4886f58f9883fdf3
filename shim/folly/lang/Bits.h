#pragma once
#include <cstdint>
#include <cstring>
namespace folly {
template <class T>
inline T loadUnaligned(const void* p) {
  T v;
  std::memcpy(&v, p, sizeof(T));
  return v;
}
template <class T>
inline void storeUnaligned(void* p, T v) {
  std::memcpy(p, &v, sizeof(T));
}
struct Endian {
  template <class T>
  static T little(T v) {
    return v;  // little endian hosts only
  }
  template <class T>
  static T big(T v) {
    T r = 0;
    auto* s = reinterpret_cast<unsigned char*>(&v);
    auto* d = reinterpret_cast<unsigned char*>(&r);
    for (size_t i = 0; i < sizeof(T); ++i) {
      d[i] = s[sizeof(T) - 1 - i];
    }
    return r;
  }
  template <class T>
  static T swap(T v) {
    return big(v);
  }
};
}  // namespace folly
