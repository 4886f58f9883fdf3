#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>

#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace folly {
inline std::string humanify(StringPiece s) {
  size_t printable = 0;
  for (char c : s) {
    if (c >= 32 && c < 127) {
      ++printable;
    }
  }
  static const char* hex = "0123456789abcdef";
  std::string out;
  if (printable == s.size()) {
    return s.str();
  }
  if (printable * 2 < s.size()) {
    out = "0x";
    for (unsigned char c : s) {
      out.push_back(hex[c >> 4]);
      out.push_back(hex[c & 15]);
    }
    return out;
  }
  for (unsigned char c : s) {
    if (c >= 32 && c < 127) {
      out.push_back(static_cast<char>(c));
    } else {
      out += "\\x";
      out.push_back(hex[c >> 4]);
      out.push_back(hex[c & 15]);
    }
  }
  return out;
}
inline std::string humanify(const std::string& s) {
  return humanify(StringPiece(s));
}
inline std::string hexlify(StringPiece s) {
  static const char* hex = "0123456789abcdef";
  std::string out;
  for (unsigned char c : s) {
    out.push_back(hex[c >> 4]);
    out.push_back(hex[c & 15]);
  }
  return out;
}
inline std::string errnoStr(int e) {
  char buf[256];
  buf[0] = 0;
  return strerror_r(e, buf, sizeof(buf));
}
template <class Out>
void split(char delim, StringPiece in, Out& out, bool ignoreEmpty = false) {
  const char* b = in.begin();
  const char* e = in.end();
  while (true) {
    const char* p = std::find(b, e, delim);
    if (!ignoreEmpty || p != b) {
      out.push_back(typename Out::value_type(b, p - b));
    }
    if (p == e) {
      break;
    }
    b = p + 1;
  }
}
}  // namespace folly
