// C28: Bigram over its complete domain.
#include <sys/wait.h>
#include <cctype>
#include <climits>
#include <sstream>
#include <thread>
#include "hk.h"
#include "wdt/bench/Bigram.h"

static std::string wantChar(unsigned char c) {
  if (c < 32 || c > 126) {
    return hk::fmt("\\0%o", (unsigned)c);
  }
  if (c == '\\') {
    return "\\\\";
  }
  if (c == '"') {
    return "\\\"";
  }
  return std::string(1, (char)c);
}
static int cmpS(int a1, int a2, int b1, int b2, bool sgn) {
  auto v = [&](int x) { return sgn ? (int)(signed char)x : x; };
  if (v(a1) != v(b1)) {
    return v(a1) < v(b1) ? -1 : 1;
  }
  if (v(a2) != v(b2)) {
    return v(a2) < v(b2) ? -1 : 1;
  }
  return 0;
}
// does indexing with idx end the process with an abort?
static bool aborts(const Bigram& b, int idx) {
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    signal(SIGABRT, SIG_DFL);
    freopen("/dev/null", "w", stderr);
    volatile char c = b[idx];
    (void)c;
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}

int main(int argc, char** argv) {
  hk::init();
  uint64_t seed = hk::arg(argc, argv, "seed", 1);
  long full = hk::arg(argc, argv, "full", 0);
  hk::Rng rng(seed);
  std::vector<Bigram> all;
  std::unordered_map<std::string, int> printed;
  MapOfBigramToCount m;
  std::hash<Bigram> hash;
  for (int i = 0; i < 65536; ++i) {
    int x = i >> 8, y = i & 255;
    HK_CTX("bigram %02x %02x", x, y);
    Bigram b((char)x, (char)y);
    char lit[3] = {(char)x, (char)y, (char)rng.next()};
    Bigram b2(lit);
    Bigram b3(b), b4;
    if (b4[0] != 0 || b4[1] != 0) {
      hk::fail("default-ctor", "default bigram is not {0,0}");
    }
    b4 = b;
    const Bigram* bs[] = {&b, &b2, &b3, &b4};
    for (auto q : bs) {
      if ((*q)[0] != (char)x || (*q)[1] != (char)y) {
        hk::fail("index", hk::fmt("bigram %02x %02x indexes as %02x %02x", x, y, (*q)[0] & 255, (*q)[1] & 255));
      }
      if (!(*q == b) || (*q != b) || !(b == *q) || (*q < b) || (b < *q)) {
        hk::fail("self-equality", hk::fmt("copies of %02x %02x not equal or ordered", x, y));
      }
      if (hash(*q) != hash(b)) {
        hk::fail("hash-of-equal", hk::fmt("equal bigrams %02x %02x hash differently", x, y));
      }
    }
    std::string want = "{\"" + wantChar(x) + wantChar(y) + "\"}";
    std::string got = b.toPrintableString();
    if (got != want) {
      hk::fail("print", hk::fmt("bigram %02x %02x prints %s want %s", x, y, got.c_str(), want.c_str()));
    }
    for (char c : got) {
      if ((unsigned char)c < 32 || (unsigned char)c > 126) {
        hk::fail("print-nonprintable", hk::fmt("bigram %02x %02x prints a non-printable byte", x, y));
      }
    }
    auto ins = printed.emplace(got, i);
    if (!ins.second) {
      hk::fail("print-ambiguous", hk::fmt("%04x and %04x both print %s", ins.first->second, i, got.c_str()));
    }
    std::string app = "pre";
    b.toPrintableString(app);
    std::ostringstream os;
    os << "x" << b << "y";
    if (app != "pre" + want || os.str() != "x" + want + "y") {
      hk::fail("print-append", hk::fmt("bigram %02x %02x: %s %s", x, y, app.c_str(), os.str().c_str()));
    }
    std::string bin = "q";
    b.toBinary(bin);
    if (bin.size() != 3 || bin[0] != 'q' || bin[1] != (char)x || bin[2] != (char)y) {
      hk::fail("to-binary", hk::fmt("bigram %02x %02x -> %s", x, y, hk::hex(bin).c_str()));
    }
    std::stringstream ss;
    b.binarySerialize(ss);
    if (ss.str() != std::string(lit, 2)) {
      hk::fail("serialize", hk::fmt("bigram %02x %02x -> %s", x, y, hk::hex(ss.str()).c_str()));
    }
    Bigram r('?', '!');
    if (!r.binaryDeserialize(ss) || r != b || ss.fail()) {
      hk::fail("deserialize", hk::fmt("bigram %02x %02x came back as %s", x, y, r.toPrintableString().c_str()));
    }
    Bigram e;
    if (e.binaryDeserialize(ss)) {
      hk::fail("deserialize-eof", "success at end of stream");
    }
    std::stringstream s1(std::string(lit, 1));
    if (e.binaryDeserialize(s1)) {
      hk::fail("deserialize-short", hk::fmt("success on one byte %02x", x));
    }
    std::string tail = rng.bytes(rng.in(0, 5));
    std::stringstream s3(std::string(lit, 2) + tail);
    if (!e.binaryDeserialize(s3) || e != b || (size_t)s3.tellg() != 2) {
      hk::fail("deserialize-more", hk::fmt("bigram %02x %02x in a longer stream", x, y));
    }
    if (!m.emplace(b, i).second) {
      hk::fail("map-collision", hk::fmt("%02x %02x not distinct from an earlier bigram", x, y));
    }
    all.push_back(b);
    hk::eval(i);
  }
  for (int c = 0; c < 256; ++c) {
    HK_CTX("char %02x", c);
    std::string got = Bigram::toPrintableString((char)c);
    if (got != wantChar(c)) {
      hk::fail("print-char", hk::fmt("char %02x prints %s want %s", c, got.c_str(), wantChar(c).c_str()));
    }
    hk::eval(100000 + c);
  }
  if (m.size() != 65536) {
    hk::fail("map-size", hk::fmt("map of all bigrams has %zu entries", m.size()));
  }
  std::unordered_set<size_t> hs;
  for (int i = 0; i < 65536; ++i) {
    auto it = m.find(all[i]);
    if (it == m.end() || it->second != (uint32_t)i) {
      hk::fail("map-lookup", hk::fmt("bigram %04x looked up wrong", i));
    }
    hs.insert(hash(all[i]));
  }
  hk::count("distinct_hashes", hs.size());
  // ordering: one byte-wise order (signed or unsigned), for all pairs
  bool sgn = all[0x8000] < all[0];
  auto rows = [&](int from, int step, bool everything) {
    hk::Rng r(seed * 1000 + from);
    long n = 0;
    for (int i = from; i < 65536; i += step) {
      auto one = [&](int j) {
        const Bigram &a = all[i], &b = all[j];
        int w = cmpS(i >> 8, i & 255, j >> 8, j & 255, sgn);
        bool lt = a < b, gt = b < a, eq = a == b, ne = a != b;
        if (lt != (w < 0) || gt != (w > 0) || eq != (w == 0) || ne != (w != 0)) {
          hk::fail("order", hk::fmt("%04x vs %04x: < %d > %d == %d != %d, %s byte order says %d", i, j, lt, gt,
                                    eq, ne, sgn ? "signed" : "unsigned", w));
        }
        ++n;
      };
      if (everything) {
        for (int j = 0; j < 65536; ++j) {
          one(j);
        }
      } else {
        // every other first byte with the same, adjacent and random seconds;
        // every second byte under the same first
        for (int k = 0; k < 256; ++k) {
          one((k << 8) | (i & 255));
          one((k << 8) | (r.next() & 255));
          one((k << 8) | ((i + 1) & 255));
          one((i & 0xff00) | k);
          one((k << 8) | (i >> 8));
        }
      }
    }
    hk::evalOnly(n);
  };
  std::vector<std::thread> ts;
  for (int t = 0; t < 8; ++t) {
    ts.emplace_back([&, t] { rows(t, 8, full != 0); });
  }
  for (auto& t : ts) {
    t.join();
  }
  // other indices are refused
  for (int idx : {-1, 2, 3, 4, 127, 128, 255, 256, 257, -2, -128, -255, -256, 65536, 65537, INT_MAX, INT_MIN, INT_MIN + 1}) {
    for (int v : {0, 0x6162, 0xffff}) {
      HK_CTX("index %d", idx);
      if (!aborts(all[v], idx)) {
        hk::fail("index-refused", hk::fmt("index %d of bigram %04x is not refused", idx, v));
      }
      hk::eval(200000 + idx * 3ll + v);
    }
  }
  for (int idx : {0, 1}) {
    if (aborts(all[7], idx)) {
      hk::fail("index-good", hk::fmt("index %d is refused", idx));
    }
  }
  if (sizeof(Bigram) != 2) {
    hk::fail("size", "sizeof(Bigram) is not 2");
  }
  hk::sample("bigrams 0000..ffff, e.g. fffe prints " + all[0xfffe].toPrintableString());
  return hk::done();
}
