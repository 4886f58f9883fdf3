// Minimal stand-in for the parts of folly that facebook/wdt's core uses.
// (folly itself is not available in the sandbox.)
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>

namespace folly {
template <class Iter>
class Range {
 public:
  using value_type = typename std::remove_reference<
      typename std::iterator_traits<Iter>::reference>::type;
  using iterator = Iter;
  using const_iterator = Iter;
  using size_type = std::size_t;
  static constexpr size_type npos = std::string::npos;

  constexpr Range() : b_(), e_() {
  }
  constexpr Range(Iter start, Iter end) : b_(start), e_(end) {
  }
  constexpr Range(Iter start, size_t size) : b_(start), e_(start + size) {
  }
  // char-only conversions
  template <class T = Iter, typename std::enable_if<
                                std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {
  }
  template <class T = Iter, typename std::enable_if<
                                std::is_same<T, const char*>::value, int>::type = 0>
  Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {
  }
  template <class T = Iter, typename std::enable_if<
                                std::is_same<T, const char*>::value, int>::type = 0>
  Range(const char* s) : b_(s), e_(s + std::strlen(s)) {
  }
  template <class T = Iter, typename std::enable_if<
                                std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_t from) {
    if (from > s.size()) {
      throw std::out_of_range("index out of range");
    }
    b_ = s.data() + from;
    e_ = s.data() + s.size();
  }
  template <class T = Iter, typename std::enable_if<
                                std::is_same<T, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_t from, size_t n) {
    if (from > s.size()) {
      throw std::out_of_range("index out of range");
    }
    b_ = s.data() + from;
    e_ = b_ + std::min(n, s.size() - from);
  }
  // reinterpret between char and unsigned char pieces
  template <class Other,
            typename std::enable_if<
                (std::is_same<Iter, const unsigned char*>::value &&
                 (std::is_same<Other, const char*>::value ||
                  std::is_same<Other, char*>::value)) ||
                    (std::is_same<Iter, const char*>::value &&
                     std::is_same<Other, const unsigned char*>::value),
                int>::type = 0>
  explicit Range(const Range<Other>& o)
      : b_(reinterpret_cast<Iter>(o.begin())),
        e_(reinterpret_cast<Iter>(o.end())) {
  }
  // non-const -> const
  template <class Other,
            typename std::enable_if<
                !std::is_same<Other, Iter>::value &&
                    std::is_convertible<Other, Iter>::value,
                int>::type = 0>
  Range(const Range<Other>& o) : b_(o.begin()), e_(o.end()) {
  }

  Iter start() const {
    return b_;
  }
  Iter begin() const {
    return b_;
  }
  Iter end() const {
    return e_;
  }
  Iter data() const {
    return b_;
  }
  size_type size() const {
    return static_cast<size_type>(e_ - b_);
  }
  bool empty() const {
    return b_ == e_;
  }
  auto& front() const {
    return *b_;
  }
  auto& back() const {
    return *(e_ - 1);
  }
  auto& operator[](size_t i) const {
    return b_[i];
  }
  auto& at(size_t i) const {
    if (i >= size()) {
      throw std::out_of_range("index out of range");
    }
    return b_[i];
  }
  void clear() {
    b_ = Iter();
    e_ = Iter();
  }
  void reset(Iter s, size_t n) {
    b_ = s;
    e_ = s + n;
  }
  void advance(size_type n) {
    if (n > size()) {
      throw std::out_of_range("index out of range");
    }
    b_ += n;
  }
  void uncheckedAdvance(size_type n) {
    b_ += n;
  }
  void subtract(size_type n) {
    if (n > size()) {
      throw std::out_of_range("index out of range");
    }
    e_ -= n;
  }
  void pop_front() {
    ++b_;
  }
  void pop_back() {
    --e_;
  }
  Range subpiece(size_type first, size_type length = npos) const {
    if (first > size()) {
      throw std::out_of_range("index out of range");
    }
    return Range(b_ + first, std::min(length, size() - first));
  }
  std::string str() const {
    return toString();
  }
  std::string toString() const {
    return std::string(reinterpret_cast<const char*>(b_), size());
  }
  size_type find(char c) const {
    for (Iter i = b_; i != e_; ++i) {
      if (static_cast<char>(*i) == c) {
        return i - b_;
      }
    }
    return npos;
  }
  size_type find(char c, size_t pos) const {
    for (size_t i = pos; i < size(); ++i) {
      if (static_cast<char>(b_[i]) == c) {
        return i;
      }
    }
    return npos;
  }
  bool startsWith(const Range& o) const {
    return size() >= o.size() && std::equal(o.b_, o.e_, b_);
  }
  bool endsWith(const Range& o) const {
    return size() >= o.size() && std::equal(o.b_, o.e_, e_ - o.size());
  }
  bool removePrefix(const Range& o) {
    return startsWith(o) && (b_ += o.size(), true);
  }
  bool removeSuffix(const Range& o) {
    return endsWith(o) && (e_ -= o.size(), true);
  }
  /// returns the piece up to delimiter and advances past it; the whole rest if
  /// the delimiter is not there
  Range split_step(char delimiter) {
    Iter i = std::find(b_, e_, delimiter);
    Range result(b_, i);
    b_ = (i == e_) ? e_ : i + 1;
    return result;
  }
  int compare(const Range& o) const {
    const size_type n = std::min(size(), o.size());
    int r = n ? std::memcmp(b_, o.b_, n) : 0;
    if (r == 0) {
      r = size() < o.size() ? -1 : (size() > o.size() ? 1 : 0);
    }
    return r;
  }
  friend bool operator==(const Range& a, const Range& b) {
    return a.size() == b.size() && a.compare(b) == 0;
  }
  friend bool operator!=(const Range& a, const Range& b) {
    return !(a == b);
  }
  friend bool operator<(const Range& a, const Range& b) {
    return a.compare(b) < 0;
  }
  friend std::ostream& operator<<(std::ostream& os, const Range& r) {
    return os.write(reinterpret_cast<const char*>(r.b_), r.size());
  }

 private:
  Iter b_, e_;
};
typedef Range<const char*> StringPiece;
typedef Range<char*> MutableStringPiece;
typedef Range<const unsigned char*> ByteRange;
typedef Range<unsigned char*> MutableByteRange;
inline std::string operator+(const std::string& a, StringPiece b) {
  return a + b.str();
}
}  // namespace folly
