// Small kit for harness drivers: verdict lines, counting, deterministic
// randomness, and the current case printed when the process dies.
#pragma once
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace hk {
inline std::mutex& mu() {
  static std::mutex m;
  return m;
}
inline char* ctxbuf() {
  static char b[8192];
  return b;
}
inline std::unordered_set<uint64_t>& seen() {
  static std::unordered_set<uint64_t> s;
  return s;
}
inline std::map<std::string, long>& counters() {
  static std::map<std::string, long> c;
  return c;
}
inline std::map<std::string, int>& fails() {
  static std::map<std::string, int> c;
  return c;
}
inline std::atomic<long>& evals() {
  static std::atomic<long> e{0};
  return e;
}
inline std::atomic<int>& nsamples() {
  static std::atomic<int> e{0};
  return e;
}
inline void dieCtx() {
  char* b = ctxbuf();
  if (b[0]) {
    (void)!write(2, "\nCTX ", 5);
    (void)!write(2, b, strlen(b));
    (void)!write(2, "\n", 1);
  }
}
inline void onAbort(int) {
  dieCtx();
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
inline void init() {
  signal(SIGPIPE, SIG_IGN);
  signal(SIGABRT, onAbort);
  if (__sanitizer_set_death_callback) {
    __sanitizer_set_death_callback(dieCtx);
  }
}
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline std::string hex(const void* p, size_t n) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n; ++i) {
    snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]);
    r += b;
    if (i > 400) {
      r += "..";
      break;
    }
  }
  return r;
}
inline std::string hex(const std::string& s) {
  return hex(s.data(), s.size());
}
inline std::string clean(std::string s) {
  for (auto& c : s) {
    if ((unsigned char)c < 32 || (unsigned char)c > 126) {
      c = '?';
    }
  }
  return s;
}
#define HK_CTX(...) snprintf(hk::ctxbuf(), 8192, __VA_ARGS__)
// a violation; key is its stable identity
inline void fail(const std::string& key, const std::string& desc) {
  std::lock_guard<std::mutex> l(mu());
  if (fails()[key]++ < 2 && fails().size() < 60) {
    printf("FAIL %s | %s\n", clean(key).c_str(), clean(desc).c_str());
    fflush(stdout);
  }
}
inline uint64_t h64(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ull;
  }
  return h ^ (h >> 29);
}
inline uint64_t h64(const std::string& s) {
  return h64(s.data(), s.size());
}
// one evaluated case; hash identifies it for the distinct count
inline void eval(uint64_t hash) {
  evals()++;
  std::lock_guard<std::mutex> l(mu());
  if (seen().size() < 2000000) {
    seen().insert(hash);
  }
}
inline void evalOnly(long n = 1) {
  evals() += n;
}
inline void count(const std::string& name, long n = 1) {
  std::lock_guard<std::mutex> l(mu());
  counters()[name] += n;
}
inline void sample(const std::string& s) {
  if (nsamples()++ < 3) {
    std::lock_guard<std::mutex> l(mu());
    printf("SAMPLE %s\n", clean(s).c_str());
  }
}
inline int done() {
  std::lock_guard<std::mutex> l(mu());
  for (auto& c : counters()) {
    printf("COUNT %s %ld\n", c.first.c_str(), c.second);
  }
  printf("DONE %ld %zu\n", evals().load(), seen().size());
  fflush(stdout);
  return 0;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0xd6e8feb86659fd93ull + 0x1234567) {
    s = next();  // or the streams of different seeds would be shifts of one
    s ^= next() << 1;
  }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [a, b]
  int64_t in(int64_t a, int64_t b) {
    return a + (int64_t)(next() % (uint64_t)(b - a + 1));
  }
  // uniform in [0, n)
  uint64_t u(uint64_t n) {
    return next() % n;
  }
  bool p(int percent) {
    return (int)(next() % 100) < percent;
  }
  // magnitude-spread value over the whole int64 range
  int64_t wide() {
    int bits = in(0, 64);
    uint64_t v = bits == 0 ? 0 : next() >> (64 - bits);
    if (p(30)) {
      v = (bits >= 64 ? 0 : (1ull << bits)) + (uint64_t)in(-2, 2);
    }
    return p(30) ? -(int64_t)(v & 0x7fffffffffffffffull) : (int64_t)v;
  }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) {
      c = (char)next();
    }
    return r;
  }
};
inline long arg(int argc, char** argv, const char* name, long def) {
  size_t n = strlen(name);
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], name, n) && argv[i][n] == '=') {
      return atol(argv[i] + n + 1);
    }
  }
  return def;
}
inline std::string sarg(int argc, char** argv, const char* name, const char* def = "") {
  size_t n = strlen(name);
  for (int i = 1; i < argc; ++i) {
    if (!strncmp(argv[i], name, n) && argv[i][n] == '=') {
      return argv[i] + n + 1;
    }
  }
  return def;
}
}  // namespace hk
