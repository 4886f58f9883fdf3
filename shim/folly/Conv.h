#pragma once
#include <folly/Range.h>

#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>

namespace folly {
struct ConversionError : public std::range_error {
  using std::range_error::range_error;
};
namespace detail {
[[noreturn]] inline void convFail(StringPiece s) {
  throw ConversionError("conversion error: " + s.str());
}
template <class T>
T strToIntegral(StringPiece orig) {
  const char* b = orig.begin();
  const char* e = orig.end();
  while (b != e && std::isspace(static_cast<unsigned char>(*b))) {
    ++b;
  }
  bool neg = false;
  if (std::is_signed<T>::value && b != e && (*b == '-' || *b == '+')) {
    neg = (*b == '-');
    ++b;
  }
  if (b == e || !std::isdigit(static_cast<unsigned char>(*b))) {
    convFail(orig);
  }
  unsigned __int128 v = 0;
  const unsigned __int128 lim =
      neg ? static_cast<unsigned __int128>(
                static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + 1)
          : static_cast<unsigned __int128>(std::numeric_limits<T>::max());
  for (; b != e && std::isdigit(static_cast<unsigned char>(*b)); ++b) {
    v = v * 10 + (*b - '0');
    if (v > lim) {
      convFail(orig);
    }
  }
  for (; b != e; ++b) {
    if (!std::isspace(static_cast<unsigned char>(*b))) {
      convFail(orig);
    }
  }
  return static_cast<T>(neg ? (static_cast<unsigned __int128>(0) - v) : v);
}
inline bool strToBool(StringPiece orig) {
  std::string s;
  for (char c : orig) {
    s.push_back(static_cast<char>(std::tolower(static_cast<unsigned char>(c))));
  }
  const size_t b = s.find_first_not_of(" \t\n\r\v\f");
  if (b == std::string::npos) {
    convFail(orig);
  }
  s = s.substr(b, s.find_last_not_of(" \t\n\r\v\f") - b + 1);
  if (s == "y" || s == "yes" || s == "t" || s == "true" || s == "on") {
    return true;
  }
  if (s == "n" || s == "no" || s == "f" || s == "false" || s == "off") {
    return false;
  }
  const size_t nz = s.find_first_not_of('0');
  if (nz == std::string::npos) {
    return false;
  }
  if (s.substr(nz) == "1") {
    return true;
  }
  convFail(orig);
}
}  // namespace detail

// toAppend(x..., &str)
template <class S>
inline void toAppend(S* out) {
  (void)out;
}
inline void appendOne(const std::string& v, std::string* out) {
  out->append(v);
}
inline void appendOne(StringPiece v, std::string* out) {
  out->append(v.data(), v.size());
}
inline void appendOne(const char* v, std::string* out) {
  if (v) {
    out->append(v);
  }
}
inline void appendOne(char v, std::string* out) {
  out->push_back(v);
}
template <class T>
typename std::enable_if<std::is_integral<T>::value &&
                        !std::is_same<T, char>::value>::type
appendOne(T v, std::string* out) {
  if (std::is_same<T, bool>::value) {
    out->push_back(v ? '1' : '0');
  } else {
    out->append(std::to_string(v));
  }
}
template <class T>
typename std::enable_if<std::is_enum<T>::value>::type appendOne(
    T v, std::string* out) {
  appendOne(static_cast<typename std::underlying_type<T>::type>(v), out);
}
template <class T>
typename std::enable_if<std::is_floating_point<T>::value>::type appendOne(
    T v, std::string* out) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  out->append(o.str());
}
template <class T, class... Ts>
typename std::enable_if<(sizeof...(Ts) >= 1)>::type toAppend(
    const T& v, const Ts&... vs);
namespace detail {
template <class Out>
void appendAll(Out) {
}
template <class T>
std::string* lastOf(const T& v) {
  return v;
}
template <class T, class U, class... Ts>
std::string* lastOf(const T&, const U& u, const Ts&... vs) {
  return lastOf(u, vs...);
}
template <class T>
void appendButLast(std::string*, const T&) {
}
template <class T, class U, class... Ts>
void appendButLast(std::string* out, const T& v, const U& u, const Ts&... vs) {
  appendOne(v, out);
  appendButLast(out, u, vs...);
}
}  // namespace detail
template <class T, class... Ts>
typename std::enable_if<(sizeof...(Ts) >= 1)>::type toAppend(
    const T& v, const Ts&... vs) {
  detail::appendButLast(detail::lastOf(v, vs...), v, vs...);
}

template <class Tgt, class... Ts>
typename std::enable_if<std::is_same<Tgt, std::string>::value, std::string>::type
to(const Ts&... vs) {
  std::string s;
  (appendOne(vs, &s), ...);
  return s;
}
template <class Tgt>
typename std::enable_if<std::is_integral<Tgt>::value &&
                            !std::is_same<Tgt, bool>::value,
                        Tgt>::type
to(StringPiece s) {
  return detail::strToIntegral<Tgt>(s);
}
template <class Tgt>
typename std::enable_if<std::is_same<Tgt, bool>::value, bool>::type to(
    StringPiece s) {
  return detail::strToBool(s);
}
template <class Tgt>
typename std::enable_if<std::is_floating_point<Tgt>::value, Tgt>::type to(
    StringPiece s) {
  std::string t = s.str();
  char* e = nullptr;
  double d = std::strtod(t.c_str(), &e);
  if (e == t.c_str() || *e) {
    detail::convFail(s);
  }
  return static_cast<Tgt>(d);
}
template <class Tgt, class Src>
typename std::enable_if<std::is_arithmetic<Tgt>::value &&
                            std::is_arithmetic<Src>::value,
                        Tgt>::type
to(Src v) {
  Tgt t = static_cast<Tgt>(v);
  if (static_cast<Src>(t) != v || ((t < Tgt{}) != (v < Src{}))) {
    throw ConversionError("arithmetic conversion");
  }
  return t;
}
}  // namespace folly
