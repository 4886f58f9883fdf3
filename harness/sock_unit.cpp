// C04/C33: the stream and encryption layer between two real sockets, with the
// wire recorded, checked against an independent reading of it, and altered.
#include <openssl/evp.h>
#include <sys/socket.h>
#include <poll.h>
#include <chrono>
#include <memory>
#include <thread>
#include "hk.h"
#include "wdt/AbortChecker.h"
#include "wdt/util/ClientSocket.h"
#include "wdt/util/EncryptionUtils.h"
#include "wdt/util/ServerSocket.h"
#include "wdt/util/WdtSocket.h"
#include "wdt/WdtOptions.h"
using namespace facebook::wdt;
using std::string;
using std::vector;
typedef std::chrono::steady_clock Clk;
static long msSince(Clk::time_point t) {
  return std::chrono::duration_cast<std::chrono::milliseconds>(Clk::now() - t).count();
}

static std::mutex gIvMu;
static std::set<string> gIvs;
static void addIv(const string& iv, const string& what) {
  std::lock_guard<std::mutex> l(gIvMu);
  // only 96 bits of a GCM IV are used
  if (!gIvs.insert(iv.substr(0, 12)).second) {
    hk::fail("iv-repeated", what + " " + hk::hex(iv));
  }
}

// ------------------------------------------------------------ raw cipher
static void cipherCase(hk::Rng& g) {
  EncryptionType t = g.p(50) ? ENC_AES128_CTR : ENC_AES128_GCM;
  EncryptionParams key = g.p(50) ? EncryptionParams::generateEncryptionParams(t) : EncryptionParams(t, g.bytes(16));
  if (!key.isSet() || key.getSecret().size() != 16 || key.getType() != t) {
    hk::fail("generate-key", "key not usable");
    return;
  }
  string data = g.bytes(g.p(20) ? 0 : g.in(1, g.p(80) ? 300 : 20000));
  AESEncryptor e;
  string iv;
  HK_CTX("cipher type %d len %zu", (int)t, data.size());
  hk::eval(hk::h64(data + key.getSecret() + char(t)));
  if (!e.start(key, iv) || iv.size() != 16) {
    hk::fail("encryptor-start", "refused a valid key");
    return;
  }
  addIv(iv, "encryptor start");
  string ct(data.size(), 0);
  vector<std::pair<int64_t, string>> tags;
  for (size_t at = 0; at < data.size();) {
    size_t k = std::min<size_t>(data.size() - at, g.p(50) ? g.in(1, 40) : g.in(1, 5000));
    if (g.p(50)) {
      memcpy(&ct[at], &data[at], k);
      if (!e.encrypt(&ct[at], k, &ct[at])) {
        hk::fail("encrypt", "failed in place");
      }
    } else if (!e.encrypt(&data[at], k, &ct[at])) {
      hk::fail("encrypt", "failed");
    }
    at += k;
    if (e.getNumProcessed() != (int64_t)at) {
      hk::fail("num-processed", hk::fmt("%ld after %zu bytes", (long)e.getNumProcessed(), at));
    }
    if (t == ENC_AES128_GCM && g.p(30)) {
      tags.emplace_back(at, e.computeCurrentTag());
    }
  }
  string tag;
  if (!e.finish(tag) || tag.size() != encryptionTypeToTagLen(t)) {
    hk::fail("encrypt-finish", hk::fmt("tag of %zu bytes", tag.size()));
  }
  // one-shot reference
  string refs[2];
  for (int ivlen : {16, 12}) {
    auto* c = EVP_CIPHER_CTX_new();
    int n = 0;
    string& ref = refs[ivlen == 12];
    ref.assign(data.size() + 16, 0);
    EVP_EncryptInit_ex(c, t == ENC_AES128_CTR ? EVP_aes_128_ctr() : EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
    if (t == ENC_AES128_GCM) {
      EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, ivlen, nullptr);
    }
    EVP_EncryptInit_ex(c, nullptr, nullptr, (const uint8_t*)key.getSecret().data(), (const uint8_t*)iv.data());
    if (!data.empty()) {
      EVP_EncryptUpdate(c, (uint8_t*)&ref[0], &n, (const uint8_t*)data.data(), data.size());
    }
    EVP_CIPHER_CTX_free(c);
    ref.resize(data.size());
  }
  if (ct != refs[0] && ct != refs[1]) {
    hk::fail("ciphertext", hk::fmt("type %d differs from the reference cipher", (int)t));
  }
  auto decrypt = [&](const EncryptionParams& k2, const string& iv2, const string& c2, const string& tag2,
                     string& out, bool mid) -> bool {
    AESDecryptor d;
    if (!d.start(k2, iv2)) {
      return false;
    }
    out.assign(c2.size(), 0);
    size_t ti = 0;
    bool midOk = true;
    for (size_t at = 0; at < c2.size();) {
      size_t k = std::min<size_t>(c2.size() - at, g.p(50) ? g.in(1, 40) : g.in(1, 5000));
      if (mid && ti < tags.size()) {
        k = std::min<size_t>(k, tags[ti].first - at);
      }
      if (g.p(50)) {
        memcpy(&out[at], &c2[at], k);
        midOk = d.decrypt(&out[at], k, &out[at]) && midOk;
      } else {
        midOk = d.decrypt(&c2[at], k, &out[at]) && midOk;
      }
      at += k;
      if (mid && ti < tags.size() && (int64_t)at == tags[ti].first) {
        midOk = d.verifyTag(tags[ti].second) && midOk;
        string badTag = tags[ti].second;
        badTag[g.in(0, 15)] ^= 1 << g.in(0, 7);
        if (d.verifyTag(badTag)) {
          hk::fail("bad-tag-accepted", "intermediate");
        }
        ++ti;
      }
    }
    bool fin = d.finish(tag2);
    return fin && midOk;
  };
  string back;
  if (!decrypt(key, iv, ct, tag, back, true) || back != data) {
    hk::fail("decrypt", hk::fmt("type %d len %zu", (int)t, data.size()));
  }
  bool gcm = t == ENC_AES128_GCM;
  // changed key / iv / tag / ciphertext
  string k2 = key.getSecret(), iv2 = iv, t2 = tag, c2 = ct;
  int what = g.in(0, 4), ivByte = g.in(0, 15);
  switch (what) {
    case 0:
      k2[g.in(0, 15)] ^= 1 << g.in(0, 7);
      break;
    case 1:
      iv2[ivByte] ^= 1 << g.in(0, 7);
      break;
    case 2:
      if (t2.empty()) {
        return;
      }
      t2[g.in(0, 15)] ^= 1 << g.in(0, 7);
      break;
    case 3:
      if (c2.empty()) {
        return;
      }
      c2[g.next() % c2.size()] ^= 1 << g.in(0, 7);
      break;
    case 4:
      if (g.p(50) && !t2.empty()) {
        t2.resize(g.in(0, 15));
      } else if (c2.size() > 1) {
        c2.resize(g.in(0, c2.size() - 1));
      } else {
        return;
      }
      break;
  }
  string out;
  bool ok = decrypt(EncryptionParams(t, k2), iv2, c2, t2, out, false);
  if (gcm && ok) {
    hk::fail(what == 1 && ivByte >= 12 ? "gcm-iv-tail-ignored" : "tamper-accepted", hk::fmt("change %d of %zu bytes", what, data.size()));
  }
  if (data.size() >= 16 && what <= 1 && out == data && !(gcm && what == 1 && ivByte >= 12)) {
    hk::fail("key-or-iv-ignored", hk::fmt("change %d", what));
  }
  // sizes that are not a key or an IV
  AESEncryptor e3;
  string iv3;
  string bad = g.bytes(g.p(50) ? g.in(0, 15) : g.in(17, 40));
  if (!bad.empty()) {
    if (e3.start(EncryptionParams(t, bad), iv3)) {
      hk::fail("bad-key-size", std::to_string(bad.size()));
    }
    AESDecryptor d3;
    if (d3.start(EncryptionParams(t, bad), iv) || AESDecryptor().start(key, bad)) {
      hk::fail("bad-iv-or-key-size", std::to_string(bad.size()));
    }
  }
  hk::count("cipher_cases");
}

// ------------------------------------------------------------ streams
struct End {
  WdtOptions opt;
  std::unique_ptr<ThreadCtx> ctx;
  std::atomic<bool> abort{false};
  std::unique_ptr<WdtAbortChecker> ck;
  std::unique_ptr<WdtSocket> s;
  std::function<void()> onTag;
  End(const EncryptionParams& p, int64_t iv, int tagInterval, int fd, int rt = 4000, int wt = 4000) {
    opt.encryption_tag_interval_bytes = tagInterval;
    opt.read_timeout_millis = rt;
    opt.write_timeout_millis = wt;
    opt.abort_check_interval_millis = 20;
    ctx = std::make_unique<ThreadCtx>(opt, false);
    ck = std::make_unique<WdtAbortChecker>(abort);
    ctx->setAbortChecker(ck.get());
    s = std::make_unique<WdtSocket>(*ctx, 1, p, iv, [this] {
      if (onTag) {
        onTag();
      }
    });
    s->setFd(fd);
    s->setSocketTimeouts();
  }
};

// moves bytes from one descriptor to another, recording and altering them
struct Pump {
  int from, to;
  string rec;
  int64_t flipAt = -1;
  int flipMask = 0;
  int64_t cutAt = -1;    // close after that many bytes
  int64_t stallAt = -1;  // pause once at that position
  int stallMs = 0;
  int maxChunk = 65536;
  int usec = 0;
  bool flipped = false;
  std::thread th;
  Pump(int f, int t) : from(f), to(t) {
  }
  void go() {
    th = std::thread([this] {
      vector<char> b(65536);
      for (;;) {
        ssize_t n = ::read(from, b.data(), std::min<int>(maxChunk, b.size()));
        if (n < 0 && errno == EINTR) {
          continue;
        }
        if (n <= 0) {
          break;
        }
        int64_t base = rec.size();
        rec.append(b.data(), n);
        if (flipAt >= base && flipAt < base + n) {
          b[flipAt - base] ^= flipMask;
          flipped = true;
        }
        if (stallAt >= base && stallAt < base + n) {
          usleep(stallMs * 1000);
        }
        bool cut = false;
        if (cutAt >= 0 && cutAt < base + n) {
          n = std::max<int64_t>(0, cutAt - base);
          cut = true;
        }
        ssize_t w = 0;
        while (w < n) {
          ssize_t k = ::send(to, b.data() + w, n - w, MSG_NOSIGNAL);
          if (k < 0 && errno == EINTR) {
            continue;
          }
          if (k <= 0) {
            break;
          }
          w += k;
        }
        if (usec) {
          usleep(usec);
        }
        if (cut || w < n) {
          break;
        }
      }
      ::shutdown(to, SHUT_WR);
      // keep draining so that the writer never blocks
      while (true) {
        ssize_t n = ::read(from, b.data(), b.size());
        if (n < 0 && errno == EINTR) {
          continue;
        }
        if (n <= 0) {
          break;
        }
      }
    });
  }
};

static bool uv(const string& w, size_t& p, uint64_t& v) {
  v = 0;
  for (int i = 0; i < 9; ++i) {
    if (p >= w.size()) {
      return false;
    }
    unsigned char c = w[p++];
    v |= (uint64_t)(c & (i == 8 ? 255 : 127)) << (7 * i);
    if (!(c & 128)) {
      return true;
    }
  }
  return true;
}
static int gIvLen = 12;  // how much of the IV the build at hand uses
static void findIvLen() {
  AESEncryptor e;
  string iv, d(64, 'x'), o(64, 0);
  EncryptionParams k(ENC_AES128_GCM, "0123456789abcdef");
  e.start(k, iv);
  e.encrypt(&d[0], 64, &o[0]);
  auto* c = EVP_CIPHER_CTX_new();
  int n = 0;
  string r(64, 0);
  EVP_EncryptInit_ex(c, EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, 16, nullptr);
  EVP_EncryptInit_ex(c, nullptr, nullptr, (const uint8_t*)"0123456789abcdef", (const uint8_t*)iv.data());
  EVP_EncryptUpdate(c, (uint8_t*)&r[0], &n, (const uint8_t*)d.data(), 64);
  EVP_CIPHER_CTX_free(c);
  gIvLen = r == o ? 16 : 12;
}
// independent reading of a recorded stream; "" or what is wrong
static string readWire(const string& w, EncryptionType t, const string& key, int64_t ivChange, size_t len, string& out,
                       int& ivs, int& ntags, int wantInterval) {
  if (t == ENC_NONE) {
    out = w;
    return "";
  }
  size_t p = 0;
  if (w.empty() || w[p++] != 'e') {
    return "no encryption command";
  }
  uint64_t ty, ivl;
  if (!uv(w, p, ty) || !uv(w, p, ivl) || ty != (uint64_t)t || ivl != 16 || w.size() < p + 20) {
    return "bad encryption header";
  }
  string iv = w.substr(p, 16);
  p += 16;
  uint32_t interval = (uint8_t)w[p] | (uint8_t)w[p + 1] << 8 | (uint8_t)w[p + 2] << 16 | (uint32_t)(uint8_t)w[p + 3] << 24;
  p += 4;
  if ((int)interval != wantInterval) {
    return "tag interval on the wire is " + std::to_string(interval);
  }
  auto mk = [&](const string& i) {
    auto* c = EVP_CIPHER_CTX_new();
    EVP_DecryptInit_ex(c, t == ENC_AES128_CTR ? EVP_aes_128_ctr() : EVP_aes_128_gcm(), nullptr, nullptr, nullptr);
    if (t == ENC_AES128_GCM) {
      EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_IVLEN, gIvLen, nullptr);
    }
    EVP_DecryptInit_ex(c, nullptr, nullptr, (const uint8_t*)key.data(), (const uint8_t*)i.data());
    return c;
  };
  auto check = [&](EVP_CIPHER_CTX* c, string tag) {
    auto* d = EVP_CIPHER_CTX_new();
    EVP_CIPHER_CTX_copy(d, c);
    EVP_CIPHER_CTX_ctrl(d, EVP_CTRL_GCM_SET_TAG, 16, &tag[0]);
    int n = 0;
    uint8_t b[32];
    int r = EVP_DecryptFinal_ex(d, b, &n);
    EVP_CIPHER_CTX_free(d);
    return r == 1;
  };
  addIv(iv, "stream start");
  ivs = 1;
  ntags = 0;
  auto* c = mk(iv);
  int64_t sinceIv = 0;
  string err;
  bool gcm = t == ENC_AES128_GCM;
  while (out.size() < len && err.empty()) {
    size_t k = len - out.size();
    if (interval) {
      if (!out.empty() && out.size() % interval == 0) {
        if (w.size() < p + 16 || !check(c, w.substr(p, 16))) {
          err = "tag at " + std::to_string(out.size()) + " wrong";
          break;
        }
        p += 16;
        ++ntags;
        if (ivChange && sinceIv + (int64_t)interval > ivChange) {
          if (w.size() < p + 16) {
            err = "no new iv at " + std::to_string(out.size());
            break;
          }
          iv = w.substr(p, 16);
          p += 16;
          addIv(iv, "iv renewal");
          ++ivs;
          EVP_CIPHER_CTX_free(c);
          c = mk(iv);
          sinceIv = 0;
        }
      }
      k = std::min<size_t>(k, interval - out.size() % interval);
    }
    if (w.size() < p + k) {
      err = "stream too short";
      break;
    }
    string o(k + 16, 0);
    int n = 0;
    EVP_DecryptUpdate(c, (uint8_t*)&o[0], &n, (const uint8_t*)&w[p], k);
    out.append(o, 0, k);
    p += k;
    sinceIv += k;
  }
  if (err.empty() && gcm) {
    if (w.size() < p + 16 || !check(c, w.substr(p, 16))) {
      err = "final tag wrong";
    }
    p += 16;
  }
  EVP_CIPHER_CTX_free(c);
  if (err.empty() && p != w.size()) {
    err = hk::fmt("%zu extra bytes on the wire", w.size() - p);
  }
  return err;
}

static void streamCase(hk::Rng& g, bool tamper, bool slow) {
  EncryptionType t = (EncryptionType)(tamper ? (g.p(80) ? 2 : 1) : g.in(0, 2));
  static const int kInt[] = {0, 1, 2, 7, 15, 16, 17, 64, 100, 1000, 4096, 100000, 4 << 20};
  int tagInterval = kInt[g.in(0, 12)];
  size_t len = g.p(10) ? g.in(1, 3) : g.p(70) ? g.in(1, 3000) : g.in(3000, 150000);
  if (tagInterval && tagInterval < 8) {
    len = std::min<size_t>(len, 4000);
  }
  if (g.p(30) && tagInterval > 2 && tagInterval < 5000) {
    len = tagInterval * g.in(1, 4) + g.in(-1, 1);  // ends around a tag
  }
  int64_t ivc = 0;
  if (g.p(60)) {
    ivc = g.p(50) ? g.in(1, 200) : std::max<int64_t>(1, tagInterval * g.in(1, 5) + g.in(-2, 2));
  }
  EncryptionParams key = t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, g.bytes(16));
  string data = g.bytes(len);
  bool compressible = g.p(30);
  if (compressible) {
    string unit = "name-of-a-secret-file.txt|";
    for (size_t i = 0; i < len; ++i) {
      data[i] = unit[i % unit.size()];
    }
  }
  string what = hk::fmt("type %d len %zu interval %d ivchange %ld tamper %d", (int)t, len, tagInterval, (long)ivc, tamper);
  HK_CTX("stream %s", what.c_str());
  hk::eval(hk::h64(what + data.substr(0, 64)));
  int a[2], b[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, a) || socketpair(AF_UNIX, SOCK_STREAM, 0, b)) {
    return;
  }
  Pump fw(a[1], b[1]), bw(b[1], a[1]);
  fw.maxChunk = g.p(50) ? 65536 : g.in(1, 200);
  if (len / fw.maxChunk > 3000) {
    fw.maxChunk = 4096;
  }
  size_t wireLen = len + (t ? 23 : 0) + (t == 2 ? 16 : 0);
  bool cut = false;
  EncryptionParams rkey = key;
  bool wrongKey = false;
  if (tamper) {
    int m = g.in(0, 9);
    if (m == 0) {
      string k2 = key.getSecret();
      k2[g.in(0, 15)] ^= 1 << g.in(0, 7);
      rkey = EncryptionParams(t, k2);
      wrongKey = true;
    } else if (m <= 2) {
      fw.cutAt = g.in(0, wireLen - 1);
      cut = true;
    } else {
      fw.flipAt = g.p(25) ? g.in(0, std::min<size_t>(30, wireLen) - 1) : g.in(0, wireLen - 1);
      if (g.p(20)) {
        fw.flipAt = wireLen - g.in(1, 16);
      }
      fw.flipMask = 1 << g.in(0, 7);
    }
  } else if (slow) {
    fw.stallAt = g.in(0, wireLen - 1);
    fw.stallMs = g.in(30, 120);
  }
  fw.go();
  bw.go();
  const int tmoMax = tamper ? 2500 : 20000;  // altered lengths make both ends wait
  string got;
  ErrorCode endCode = ERROR, wcode = OK, ccode = ERROR;
  int tagsSeen = 0;
  bool verifiedWrong = false, unverified = false;
  ErrorCode lastRead = OK;
  {
    End w(key, ivc, tagInterval, a[0], slow ? 4000 : tmoMax, tmoMax), r(rkey, ivc, 12345, b[0], tmoMax, tmoMax);
    r.onTag = [&] {
      ++tagsSeen;
      if (got.size() > data.size() || data.compare(0, got.size(), got)) {
        verifiedWrong = true;
      }
    };
    std::thread wt([&] {
      hk::Rng h(g.s ^ 0x77);
      size_t at = 0;
      while (at < len) {
        size_t k = std::min<size_t>(len - at, h.p(50) ? h.in(1, 64) : h.in(1, 70000));
        string c = data.substr(at, k);
        int n = w.s->write(&c[0], k, true);
        if (n != (int)k) {
          wcode = w.s->getWriteErrCode() == OK ? ERROR : w.s->getWriteErrCode();
          break;
        }
        at += k;
      }
      ErrorCode sc = w.s->shutdownWrites();
      if (wcode == OK) {
        wcode = sc;
      }
      if (t != ENC_NONE && encryptionTypeToTagLen(t) == 0 && w.s->getNumWritten() != 0 && tagInterval == 0) {
        // counted only with tags
      }
    });
    vector<char> buf(70000);
    int timeouts = 0;
    while (got.size() < len) {
      int ask = std::min<size_t>(len - got.size(), g.p(50) ? g.in(1, 64) : g.in(1, 70000));
      bool full = g.p(50);
      int tmo = slow ? g.in(5, 60) : tmoMax;
      int n = r.s->readWithTimeout(buf.data(), ask, tmo, full);
      if (n <= 0) {
        lastRead = r.s->getReadErrCode();
        if (slow && lastRead == WDT_TIMEOUT && ++timeouts < 300) {
          continue;  // documented as retryable
        }
        break;
      }
      if (n > ask) {
        hk::fail("read-more-than-asked", what);
        break;
      }
      got.append(buf.data(), n);
    }
    if (got.size() == len) {
      endCode = r.s->expectEndOfStream();
      lastRead = OK;
    }
    if (got.size() < len) {
      r.s->closeNoCheck();  // or the writer would wait for its peer
    }
    wt.join();
    ccode = r.s->closeConnection();
    w.s->closeNoCheck();
    if (r.s->getFd() >= 0) {
      hk::fail("fd-after-close", what);
    }
    hk::count("read_timeouts_retried", timeouts);
  }
  ::shutdown(a[1], SHUT_RDWR);
  ::shutdown(b[1], SHUT_RDWR);
  fw.th.join();
  bw.th.join();
  ::close(a[1]);
  ::close(b[1]);
  hk::count("stream_bytes", got.size());
  hk::count("tags_verified", tagsSeen);
  (void)unverified;
  if (verifiedWrong) {
    hk::fail("verified-wrong-data", what + " a tag was accepted after altered bytes");
  }
  if (!tamper) {
    bool tagTimeout = slow && t == ENC_AES128_GCM && lastRead == ENCRYPTION_ERROR;
    if (!tagTimeout && (got != data || wcode != OK)) {
      hk::fail("stream-content", what + hk::fmt(" got %zu bytes, same prefix %d, write %s read %s slow %d", got.size(),
                                                (int)(data.compare(0, got.size(), got) == 0),
                                                errorCodeToStr(wcode).c_str(), errorCodeToStr(lastRead).c_str(), slow));
      return;
    }
    if (tagTimeout) {
      hk::count("tag_read_timeouts");
      return;
    }
    if (t == ENC_NONE) {
      endCode = OK;
    }
    if (endCode != OK) {
      hk::fail("stream-end", what + " end of stream " + errorCodeToStr(endCode));
    }
    if (ccode != OK && t == ENC_NONE) {
      hk::fail("close-code", what + " " + errorCodeToStr(ccode));
    }
    string plain;
    int ivs = 0, nt = 0;
    string e = readWire(fw.rec, t, key.getSecret(), ivc, len, plain, ivs, nt, t == ENC_AES128_GCM ? tagInterval : 0);
    if (!e.empty() || plain != data) {
      hk::fail("wire-format", what + " " + (e.empty() ? "content" : e));
    }
    if (t == ENC_AES128_GCM && tagsSeen != nt) {
      hk::fail("tag-callbacks", what + hk::fmt(" %d callbacks for %d tags", tagsSeen, nt));
    }
    hk::count("iv_renewals", ivs > 1 ? ivs - 1 : 0);
    hk::count("wire_tags", nt);
    if (t != ENC_NONE) {
      // nothing readable, no key
      std::unordered_set<uint64_t> win;
      for (size_t i = 0; i + 8 <= data.size(); ++i) {
        uint64_t x;
        memcpy(&x, &data[i], 8);
        win.insert(x);
      }
      for (size_t i = 0; i + 8 <= fw.rec.size(); ++i) {
        uint64_t x;
        memcpy(&x, &fw.rec[i], 8);
        if (win.count(x)) {
          hk::fail("plaintext-on-wire", what + hk::fmt(" at %zu", i));
          break;
        }
      }
      if (fw.rec.find(key.getSecret()) != string::npos) {
        hk::fail("key-on-wire", what);
      }
    }
    hk::count("streams_ok");
  } else {
    bool allOk = got.size() == len && endCode == OK && lastRead == OK;
    if (t == ENC_AES128_GCM && allOk && got != data) {
      hk::fail("tamper-accepted-stream", what + hk::fmt(" flip %ld", (long)fw.flipAt));
    }
    if (t == ENC_AES128_GCM && allOk && (wrongKey || (cut && fw.cutAt >= 0))) {
      hk::fail("wrong-key-or-cut-accepted", what + hk::fmt(" wrongkey %d cut %ld", wrongKey, (long)fw.cutAt));
    }
    if (t == ENC_AES128_GCM && allOk && fw.flipped && fw.flipAt >= 23 && (ivc == 0 || tagInterval == 0) && (size_t)fw.flipAt < fw.rec.size()) {
      hk::fail("flip-accepted-stream", what + hk::fmt(" flip %ld of %zu", (long)fw.flipAt, fw.rec.size()));
    }
    if (cut && got.size() == len && (size_t)fw.cutAt < wireLen - (t == 2 ? 16 : 0) && t != ENC_AES128_GCM) {
      hk::fail("cut-not-noticed", what);
    }
    hk::count(allOk ? "altered_ok" : "altered_reported");
  }
}

// ------------------------------------------------------------ timing
static void timingCase(hk::Rng& g) {
  int kind = g.in(0, 5);
  EncryptionType t = (EncryptionType)g.in(0, 1);
  EncryptionParams key = t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, g.bytes(16));
  string what = hk::fmt("timing kind %d type %d", kind, (int)t);
  HK_CTX("%s", what.c_str());
  hk::eval(hk::h64(what + std::to_string(g.s)));
  const long slack = 4000;
  int a[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, a)) {
    return;
  }
  int tmo = g.in(60, 250);
  End r(key, 0, 0, a[0], tmo, tmo);
  End w(key, 0, 0, a[1], 20000, 20000);
  vector<char> buf(200000);
  auto t0 = Clk::now();
  if (kind == 0) {  // silence
    int n = r.s->read(buf.data(), 100);
    long ms = msSince(t0);
    if (n > 0 || r.s->getReadErrCode() != WDT_TIMEOUT) {
      hk::fail("timeout-code", what + hk::fmt(" read %d code %s", n, errorCodeToStr(r.s->getReadErrCode()).c_str()));
    }
    if (ms < tmo - 25 || ms > tmo + slack) {
      hk::fail("timeout-time", what + hk::fmt(" %ld ms for %d", ms, tmo));
    }
    // and the connection still works
    string d = g.bytes(50), c = d;
    if (w.s->write(&c[0], 50) != 50 || r.s->readWithTimeout(buf.data(), 50, 5000) != 50 || memcmp(buf.data(), d.data(), 50)) {
      hk::fail("after-timeout", what);
    }
  } else if (kind == 1) {  // dripping bytes must not extend the total
    string d = g.bytes(400), c = d;
    std::atomic<bool> stop{false};
    string first = c.substr(0, 5);
    w.s->write(&first[0], 5);
    if (r.s->read(buf.data(), 5) != 5) {
      hk::fail("drip-start", what);
    }
    std::thread th([&] {
      for (int i = 5; i < 400 && !stop; ++i) {
        usleep(15000);
        string x = d.substr(i, 1);
        w.s->write(&x[0], 1);
      }
    });
    t0 = Clk::now();
    int n = r.s->readWithTimeout(buf.data(), 395, tmo, true);
    long ms = msSince(t0);
    if (n > 0 && n < 395 && (ms < tmo - 25 || ms > tmo + slack)) {
      hk::fail("total-timeout", what + hk::fmt(" %ld ms for %d, %d bytes", ms, tmo, n));
    }
    if (n == 395 && ms > tmo + slack) {
      hk::fail("total-timeout-full", what + hk::fmt(" %ld ms for %d", ms, tmo));
    }
    if (n > 0 && memcmp(buf.data(), d.data() + 5, n)) {
      hk::fail("drip-content", what);
    }
    stop = true;
    th.join();
  } else if (kind == 2) {  // abort while waiting
    std::thread th([&] {
      usleep(30000);
      r.abort = true;
    });
    int n = r.s->readWithTimeout(buf.data(), 100, 60000, true);
    long ms = msSince(t0);
    th.join();
    if (n > 0 || ms > slack) {
      hk::fail("abort-read", what + hk::fmt(" read %d after %ld ms", n, ms));
    }
  } else if (kind == 3) {  // nobody reads
    string d = g.bytes(200000);
    int n = 0;
    for (int i = 0; i < 200 && n >= 0; ++i) {
      t0 = Clk::now();
      string c = d;
      n = r.s->write(&c[0], c.size(), g.p(50));
    }
    long ms = msSince(t0);
    if (n >= 0 || r.s->getWriteErrCode() != SOCKET_WRITE_ERROR) {
      hk::fail("write-timeout-code", what + hk::fmt(" %d %s", n, errorCodeToStr(r.s->getWriteErrCode()).c_str()));
    }
    if (ms > 2 * tmo + slack) {
      hk::fail("write-timeout-time", what + hk::fmt(" %ld ms for %d", ms, tmo));
    }
    char x = 1;
    if (r.s->write(&x, 1) > 0) {
      hk::fail("write-after-error", what);
    }
  } else if (kind == 4) {  // orderly end in the middle
    string d = g.bytes(g.in(1, 100)), c = d;
    w.s->write(&c[0], c.size());
    w.s->shutdownWrites();
    int n = r.s->read(buf.data(), 200);
    if (n != (int)d.size() || memcmp(buf.data(), d.data(), n)) {
      hk::fail("eof-short-read", what + hk::fmt(" %d of %zu", n, d.size()));
    }
    int m = r.s->read(buf.data(), 200);
    if (m > 0 || r.s->getReadErrCode() != SOCKET_READ_ERROR) {
      hk::fail("eof-code", what + hk::fmt(" %d %s", m, errorCodeToStr(r.s->getReadErrCode()).c_str()));
    }
    t0 = Clk::now();
    if (r.s->read(buf.data(), 10) > 0 || msSince(t0) > slack) {
      hk::fail("read-after-error", what);
    }
  } else {  // abort while writing to nobody
    std::thread th([&] {
      usleep(60000);
      w.abort = true;
    });
    string d = g.bytes(200000);
    int n = 0;
    for (int i = 0; i < 200 && n >= 0; ++i) {
      string c = d;
      n = w.s->write(&c[0], c.size(), true);
    }
    long ms = msSince(t0);
    th.join();
    if (n >= 0 || ms > slack) {
      hk::fail("abort-write", what + hk::fmt(" %d after %ld ms", n, ms));
    }
  }
  hk::count(hk::fmt("timing_kind%d", kind));
}

// ------------------------------------------------------------ dialogue
// Two ends that take turns: what one wrote must reach the other without
// anything further being written.
static void dialogueCase(hk::Rng& g) {
  EncryptionType t = (EncryptionType)(g.p(70) ? 2 : g.in(0, 1));
  static const int kInt[] = {0, 1, 2, 16, 17, 64, 100, 1000, 4096};
  int interval = kInt[g.in(0, 8)];
  int64_t ivc = g.p(50) ? 0 : std::max<int64_t>(1, interval * g.in(1, 4) + g.in(-1, 1));
  EncryptionParams key = t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, g.bytes(16));
  string what = hk::fmt("type %d interval %d ivchange %ld", (int)t, interval, (long)ivc);
  HK_CTX("dialogue %s", what.c_str());
  hk::eval(hk::h64("dialogue" + what + std::to_string(g.s)));
  int a[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, a)) {
    return;
  }
  const int tmo = 6000;
  End x(key, ivc, interval, a[0], tmo, tmo), y(key, ivc, interval, a[1], tmo, tmo);
  int64_t total[2] = {0, 0};
  vector<char> buf(100000);
  int turns = g.in(1, 8);
  for (int i = 0; i < turns; ++i) {
    int d = i ? g.in(0, 1) : 0;
    End& w = d ? y : x;
    End& r = d ? x : y;
    size_t len = g.in(1, 3000);
    if (interval > 2 && g.p(60)) {  // the message ends at a tag position
      len = interval - total[d] % interval + interval * g.in(0, 2);
    }
    total[d] += len;
    string m = g.bytes(len), got;
    std::thread th([&] {
      hk::Rng h(g.s + i);
      for (size_t at = 0; at < len;) {
        size_t k = std::min<size_t>(len - at, h.p(50) ? len : h.in(1, 700));
        string c = m.substr(at, k);
        if (w.s->write(&c[0], k, true) != (int)k) {
          hk::fail("dialogue-write", what);
          return;
        }
        at += k;
      }
    });
    bool full = g.p(25);
    auto t0 = Clk::now();
    while (got.size() < len) {
      // like the receiver: as much as there is, or exactly what is expected
      int ask = full ? g.in(1, len - got.size()) : g.p(50) ? buf.size() : len - got.size();
      int n = r.s->read(buf.data(), ask, full);
      if (n <= 0) {
        hk::fail("dialogue-stuck", what + hk::fmt(" turn %d: %zu of %zu bytes (%ld before), read %d %s after %ld ms", i,
                                                  got.size(), len, (long)(total[d] - len), n,
                                                  errorCodeToStr(r.s->getReadErrCode()).c_str(), msSince(t0)));
        break;
      }
      got.append(buf.data(), n);
    }
    th.join();
    if (got != m) {
      if (got.size() >= len) {
        hk::fail("dialogue-content", what);
      }
      break;
    }
    hk::count("dialogue_turns");
  }
  if (::shutdown(a[0], SHUT_RDWR) == 0) {
    ::shutdown(a[1], SHUT_RDWR);
  }
}

// ------------------------------------------------------------ tcp
static void tcpCase(hk::Rng& g) {
  WdtOptions o;
  o.ipv4 = g.p(50);
  o.ipv6 = !o.ipv4 && g.p(50);
  o.abort_check_interval_millis = 20;
  o.read_timeout_millis = o.write_timeout_millis = 20000;
  o.connect_timeout_millis = 5000;
  o.send_buffer_size = g.p(50) ? 0 : 16384;
  o.receive_buffer_size = g.p(50) ? 0 : 16384;
  o.encryption_tag_interval_bytes = g.p(50) ? 0 : 5000;
  string host = o.ipv6 ? "::1" : "127.0.0.1";
  EncryptionType t = (EncryptionType)g.in(0, 2);
  EncryptionParams key = t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, g.bytes(16));
  string what = hk::fmt("tcp %s type %d", host.c_str(), (int)t);
  HK_CTX("%s", what.c_str());
  std::atomic<bool> no{false};
  WdtAbortChecker ck(no);
  ThreadCtx c1(o, false), c2(o, false);
  c1.setAbortChecker(&ck);
  c2.setAbortChecker(&ck);
  auto t0 = Clk::now();
  ServerSocket srv(c1, 0, 10, key, 0, nullptr);
  if (srv.listen() != OK) {
    hk::count("tcp_listen_failed");
    return;
  }
  int port = srv.getPort();
  if (port <= 0 || port > 65535) {
    hk::fail("listen-port", what + " " + std::to_string(port));
    return;
  }
  // nobody connects: the wait ends
  t0 = Clk::now();
  int wait = g.in(20, 80);
  ErrorCode ac = srv.acceptNextConnection(wait, false);
  long ms = msSince(t0);
  if (ac == OK || ms > wait + 4000) {
    hk::fail("accept-timeout", what + hk::fmt(" %s after %ld", errorCodeToStr(ac).c_str(), ms));
  }
  ClientSocket cl(c2, host, port, key, 0);
  size_t len = g.in(1, 400000);
  string data = g.bytes(len);
  hk::eval(hk::h64(what + data.substr(0, 32)));
  ErrorCode cc = ERROR;
  std::atomic<int64_t> written{0};
  std::thread th([&] {
    cc = cl.connect();
    if (cc != OK) {
      return;
    }
    hk::Rng h(g.s ^ 5);
    size_t at = 0;
    while (at < len) {
      size_t k = std::min<size_t>(len - at, h.in(1, 60000));
      string c = data.substr(at, k);
      written += k + 100;
      if (cl.write(&c[0], k, true) != (int)k) {
        break;
      }
      at += k;
      int un = cl.getUnackedBytes();
      if (un < -1 || un > written.load() + 4096) {
        hk::fail("unacked", what + hk::fmt(" %d unacked of %ld", un, (long)written.load()));
      }
      hk::count("unacked_reads");
    }
    cl.shutdownWrites();
  });
  ac = srv.acceptNextConnection(20000, g.p(50));
  string got;
  if (ac == OK) {
    vector<char> b(100000);
    while (got.size() < len) {
      int ask = std::min<size_t>(len - got.size(), g.in(1, 100000));
      bool full = g.p(50);
      int n = srv.read(b.data(), ask, full);
      if (n <= 0) {
        break;
      }
      if (full && n != ask) {
        hk::fail("short-full-read", what + hk::fmt(" %d of %d", n, ask));
      }
      got.append(b.data(), n);
    }
    if (got.size() == len && t == ENC_AES128_GCM && srv.expectEndOfStream() != OK) {
      hk::fail("tcp-end", what);
    }
  }
  th.join();
  if (ac == OK && cc == OK && got != data) {
    hk::fail("tcp-content", what + hk::fmt(" %zu of %zu", got.size(), len));
  }
  string peer = srv.getPeerIp();
  if (ac == OK && peer.find(host) == string::npos) {
    hk::fail("peer-ip", what + " says " + peer);
  }
  if (ac != OK || cc != OK) {
    hk::count("tcp_no_connection");
  } else {
    hk::count("tcp_ok");
  }
  cl.closeNoCheck();
  srv.closeAllNoCheck();
}

int main(int argc, char** argv) {
  hk::init();
  hk::Rng g(hk::arg(argc, argv, "seed", 1));
  long n = hk::arg(argc, argv, "n", 50);
  string mode = hk::sarg(argc, argv, "mode", "crypto");
  findIvLen();
  if (mode == "crypto") {
    for (long i = 0; i < n * 10; ++i) {
      cipherCase(g);
    }
    for (long i = 0; i < n * 20; ++i) {  // many sessions with one key
      EncryptionParams k(ENC_AES128_GCM, "0123456789abcdef");
      AESEncryptor e;
      string iv;
      e.start(k, iv);
      addIv(iv, "same key");
      EncryptionParams x = EncryptionParams::generateEncryptionParams(ENC_AES128_GCM);
      addIv(x.getSecret(), "generated key");
      hk::evalOnly();
    }
    for (long i = 0; i < n; ++i) {
      streamCase(g, false, false);
      streamCase(g, true, false);
    }
  } else {
    for (long i = 0; i < n; ++i) {
      streamCase(g, false, i % 4 == 0);
      if (i % 4 == 0) {
        streamCase(g, true, false);
      }
      dialogueCase(g);
      if (i % 3 == 0) {
        timingCase(g);
        tcpCase(g);
      }
    }
  }
  int shown = 0;
  for (auto& iv : gIvs) {
    if (shown++ < 400) {
      printf("IV %s\n", hk::hex(iv).c_str());
    }
  }
  hk::sample(hk::fmt("%zu distinct IVs and keys", gIvs.size()));
  return hk::done();
}
