#pragma once
#include <fstream>
#include <iterator>
#include <string>
namespace folly {
inline bool readFile(const char* name, std::string& out) {
  std::ifstream f(name, std::ios::binary);
  if (!f) {
    return false;
  }
  out.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
  return true;
}
template <class C>
bool writeFile(const C& data, const char* name) {
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f.write(data.data(), data.size());
  return static_cast<bool>(f);
}
}  // namespace folly
