// C10/C11: the wire codec against an independent description of the format.
#include <functional>
#include <memory>
#include "hk.h"
#include "wdt/Protocol.h"
#include "wdt/util/EncryptionUtils.h"
#include "wdt/util/SerializationUtil.h"
#include "wdt/WdtTransferRequest.h"
#include "wdt/Reporting.h"
#include "wdt/util/TransferLogManager.h"
using namespace facebook::wdt;
using std::string;
using std::vector;

// ---------------------------------------------------------------- reference
static void wU(string& o, uint64_t v) {
  for (int i = 0; i < 8; ++i) {
    if (v < 128) {
      o.push_back((char)v);
      return;
    }
    o.push_back((char)(128 + v % 128));
    v /= 128;
  }
  o.push_back((char)v);
}
static void wZ(string& o, int64_t v) {
  wU(o, v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(v + 1)) + 1);
}
static void wS(string& o, const string& s) {
  wU(o, s.size());
  o += s;
}
static void wF(string& o, uint64_t v, int n) {
  for (int i = 0; i < n; ++i, v >>= 8) {
    o.push_back((char)(v & 255));
  }
}
struct Rd {
  const string& b;
  size_t p;
  bool ok{true};
  Rd(const string& s, size_t at) : b(s), p(at) {
  }
  uint64_t u() {
    uint64_t v = 0;
    for (int i = 0; i < 9 && ok; ++i) {
      if (p >= b.size()) {
        ok = false;
        return 0;
      }
      unsigned char c = b[p++];
      if (i == 8) {
        return v | ((uint64_t)c << 56);
      }
      v |= (uint64_t)(c & 127) << (7 * i);
      if (!(c & 128)) {
        return v;
      }
    }
    return v;
  }
  int64_t c64() {
    uint64_t v = u();
    ok = ok && v <= (uint64_t)INT64_MAX;
    return (int64_t)v;
  }
  int32_t c32() {
    int64_t v = c64();
    ok = ok && v <= INT32_MAX;
    return (int32_t)v;
  }
  int64_t z() {
    uint64_t v = u();
    return (v & 1) ? -(int64_t)(v / 2) - 1 : (int64_t)(v / 2);
  }
  string s() {
    uint64_t n = u();
    if (!ok || n > b.size() - p) {
      ok = false;
      return "";
    }
    string r = b.substr(p, n);
    p += n;
    return r;
  }
  uint8_t byte() {
    if (!ok || p >= b.size()) {
      ok = false;
      return 0;
    }
    return b[p++];
  }
  int64_t f(int n) {
    if (!ok || b.size() - p < (size_t)n) {
      ok = false;
      return 0;
    }
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) {
      v |= (uint64_t)(uint8_t)b[p + i] << (8 * i);
    }
    p += n;
    int64_t r = n == 8 ? (int64_t)v : n == 4 ? (int64_t)(int32_t)v : (int64_t)(int16_t)v;
    ok = ok && r >= 0;
    return r;
  }
};

// text form of what a message means, used to compare both sides
static string show(int64_t v) {
  return std::to_string(v) + ",";
}
static string show(const string& s) {
  return std::to_string(s.size()) + ":" + s + ",";
}

struct Msg {
  string kind;
  int v;  // protocol version
  string wire;
  string meaning;
  // real encoder into (dest, off, max)
  std::function<bool(char*, int64_t&, int64_t)> enc;
};

// real decoder; result text or "!" for refused
static string realDecode(const string& kind, int v, char* b, int64_t& off, int64_t max) {
  string r;
  if (kind == "header") {
    BlockDetails d;
    if (!Protocol::decodeHeader(v, b, off, max, d)) {
      return "!";
    }
    r = show(d.fileName) + show(d.seqId) + show(d.dataSize) + show(d.offset) + show(d.fileSize);
    if (v >= 13) {
      r += show(d.allocationStatus);
      if (d.allocationStatus == EXISTS_TOO_LARGE || d.allocationStatus == EXISTS_TOO_SMALL) {
        r += show(d.prevSeqId);
      }
    }
  } else if (kind == "checkpoints") {
    vector<Checkpoint> c;
    if (!Protocol::decodeCheckpoints(v, b, off, max, c)) {
      return "!";
    }
    r = show((int64_t)c.size());
    for (auto& k : c) {
      r += show(k.port) + show(k.numBlocks);
      if (v >= 16) {
        r += show(k.lastBlockReceivedBytes);
      }
      if (v >= 21) {
        r += show(k.lastBlockSeqId) + show(k.lastBlockOffset);
      }
    }
  } else if (kind == "done") {
    int64_t n = -7, t = -7;
    if (!Protocol::decodeDone(v, b, off, max, n, t)) {
      return "!";
    }
    r = show(n) + (v >= 16 ? show(t) : "");
  } else if (kind == "settings") {
    int sv = -7;
    Settings s;
    if (!Protocol::decodeVersion(b, off, max, sv) || !Protocol::decodeSettings(v, b, off, max, s)) {
      return "!";
    }
    r = show(sv) + show(s.readTimeoutMillis) + show(s.writeTimeoutMillis) + show(s.transferId);
    if (v >= 12) {
      r += show(s.enableChecksum) + show(s.sendFileChunks) + show(s.blockModeDisabled) +
           show(s.enableHeartBeat);
    }
  } else if (kind == "size") {
    int64_t n = -7;
    if (!Protocol::decodeSize(b, off, max, n)) {
      return "!";
    }
    r = show(n);
  } else if (kind == "footer") {
    int32_t n = -7;
    if (!Protocol::decodeFooter(b, off, max, n)) {
      return "!";
    }
    r = show(n);
  } else if (kind == "abort") {
    int32_t pv = -7;
    ErrorCode e = ERROR;
    int64_t k = -7;
    if (!Protocol::decodeAbort(b, off, max, pv, e, k)) {
      return "!";
    }
    r = show(pv) + show((int)(uint8_t)e) + show(k);
  } else if (kind == "chunkscmd") {
    int64_t x = -7, y = -7;
    if (!Protocol::decodeChunksCmd(b, off, max, x, y)) {
      return "!";
    }
    r = show(x) + show(y);
  } else if (kind == "chunklist") {
    vector<FileChunksInfo> l;
    if (!Protocol::decodeFileChunksInfoList(b, off, max, l)) {
      return "!";
    }
    r = show((int64_t)l.size());
    for (auto& f : l) {
      r += show(f.getSeqId()) + show(f.getFileName()) + show(f.getFileSize()) +
           show((int64_t)f.getChunks().size());
      for (auto& i : f.getChunks()) {
        r += show(i.start_) + show(i.end_);
      }
    }
  } else if (kind == "encryption") {
    EncryptionType t = ENC_NONE;
    string iv;
    int32_t ti = -7;
    if (!Protocol::decodeEncryptionSettings(b, off, max, t, iv, ti)) {
      return "!";
    }
    r = show((int64_t)t) + show(iv) + show(ti);
  } else if (kind == "u64") {
    uint64_t u = 7;
    if (!decodeVarU64(b, max, off, u)) {
      return "!";
    }
    r = show((int64_t)u);
  } else if (kind == "i64") {
    int64_t u = 7;
    if (!decodeVarI64(b, max, off, u)) {
      return "!";
    }
    r = show(u);
  } else if (kind == "string") {
    folly::ByteRange br = makeByteRange(b, max, off), o = br;
    string s;
    if (!decodeString(br, s)) {
      return "!";
    }
    off += offset(br, o);
    r = show(s);
  } else if (kind == "f16" || kind == "f32" || kind == "f64" || kind == "i32" || kind == "c32" ||
             kind == "c64") {
    folly::ByteRange br = makeByteRange(b, max, off), o = br;
    int64_t x = 0;
    int32_t y = 0;
    int16_t z = 0;
    bool ok;
    if (kind == "f16") {
      ok = decodeInt16FixedLength(br, z);
      x = z;
    } else if (kind == "f32") {
      ok = decodeInt32FixedLength(br, y);
      x = y;
    } else if (kind == "f64") {
      ok = decodeInt64FixedLength(br, x);
    } else if (kind == "i32") {
      ok = decodeInt32(br, y);
      x = y;
    } else if (kind == "c32") {
      ok = decodeInt32C(br, y);
      x = y;
    } else {
      ok = decodeInt64C(br, x);
    }
    if (!ok) {
      return "!";
    }
    off += offset(br, o);
    r = show(x);
  }
  return r;
}

// independent decoder
static string refDecode(const string& kind, int v, const string& b, size_t& off) {
  Rd d(b, off);
  string r;
  if (kind == "header") {
    r = show(d.s());
    for (int i = 0; i < 4; ++i) {
      r += show(d.c64());
    }
    if (v >= 13) {
      int a = d.byte() & 7;
      if (a > 4) {
        d.ok = false;
      }
      r += show(a);
      if (a == 2 || a == 3) {
        r += show(d.c64());
      }
    }
  } else if (kind == "checkpoints") {
    uint64_t n = d.u();
    r = show((int64_t)n);
    for (uint64_t i = 0; i < n && d.ok; ++i) {
      r += show(d.c32()) + show(d.c64());
      if (v >= 16) {
        r += show(d.c64());
      }
      if (v >= 21) {
        uint64_t s = d.u();
        if (v < 27 && s == ~0ull) {
          d.ok = d.ok && d.byte() == 1;
        }
        r += show((int64_t)s) + show(d.c64());
      }
    }
  } else if (kind == "done") {
    r = show(d.c64());
    if (v >= 16) {
      r += show(d.c64());
    }
  } else if (kind == "settings") {
    r = show(d.c32());
    r += show(d.c32());
    r += show(d.c32());
    r += show(d.s());
    if (v >= 12) {
      int f = d.byte();
      r += show(f & 1) + show((f >> 1) & 1) + show((f >> 2) & 1) + show((f >> 3) & 1);
    }
  } else if (kind == "size" || kind == "c64") {
    r = show(d.c64());
  } else if (kind == "footer" || kind == "i32") {
    int64_t z = d.z();
    d.ok = d.ok && z >= INT32_MIN && z <= INT32_MAX;
    r = show(z);
  } else if (kind == "abort") {
    r = show(d.f(4));
    r += show((int)d.byte());
    r += show(d.f(8));
  } else if (kind == "chunkscmd") {
    r = show(d.f(8));
    r += show(d.f(8));
  } else if (kind == "chunklist") {
    int64_t n = 0;
    string q;
    while (d.ok && d.p < b.size()) {
      int64_t seq = d.c64();
      string nm = d.s();
      int64_t sz = d.c64(), nc = d.c64();
      q += show(seq) + show(nm) + show(sz) + show(nc);
      for (int64_t i = 0; i < nc && d.ok; ++i) {
        q += show(d.c64());
        q += show(d.c64());
      }
      ++n;
    }
    r = show(n) + q;
  } else if (kind == "encryption") {
    int64_t ty = d.c64();
    d.ok = d.ok && ty < NUM_ENC_TYPES;
    r = show(ty);
    r += show(d.s());
    r += show(d.f(4));
  } else if (kind == "u64") {
    r = show((int64_t)d.u());
  } else if (kind == "i64") {
    r = show(d.z());
  } else if (kind == "string") {
    r = show(d.s());
  } else if (kind == "f16" || kind == "f32" || kind == "f64") {
    r = show(d.f(atoi(kind.c_str() + 1) / 8));
  } else if (kind == "c32") {
    r = show(d.c32());
  }
  off = d.p;
  return d.ok ? r : "!";
}

// ---------------------------------------------------------------- generation
static int64_t nn(hk::Rng& g) {  // non negative, all magnitudes
  int64_t v = g.wide();
  return v < 0 ? (v == INT64_MIN ? 0 : -v) : v;
}
static int64_t n31(hk::Rng& g) {
  return nn(g) & (g.p(50) ? 0xffff : 0x7fffffff);
}
static string str(hk::Rng& g, int mx) {
  switch (g.in(0, 5)) {
    case 0:
      return "";
    case 1:
      return g.bytes(g.in(120, 130));
    case 2:
      return g.bytes(mx);
    case 3: {
      string s = "dir/" + std::to_string(g.in(0, 1000000));
      return s;
    }
    default:
      return g.bytes(g.in(0, 40));
  }
}
static const char* kKinds[] = {"header",    "checkpoints", "done",      "settings",   "size",
                               "footer",    "abort",       "chunkscmd", "chunklist",  "encryption",
                               "u64",       "i64",         "string",    "f16",        "f32",
                               "f64"};
static Msg gen(hk::Rng& g, const string& kind, int v) {
  Msg m;
  m.kind = kind;
  m.v = v;
  string& w = m.wire;
  string& t = m.meaning;
  if (kind == "header") {
    auto d = std::make_shared<BlockDetails>();
    d->fileName = str(g, PATH_MAX);
    d->seqId = nn(g);
    d->dataSize = nn(g);
    d->offset = nn(g);
    d->fileSize = nn(g);
    d->allocationStatus = (FileAllocationStatus)g.in(0, 4);
    d->prevSeqId = nn(g);
    wS(w, d->fileName);
    for (int64_t x : {d->seqId, d->dataSize, d->offset, d->fileSize}) {
      wU(w, x);
    }
    t = show(d->fileName) + show(d->seqId) + show(d->dataSize) + show(d->offset) + show(d->fileSize);
    if (v >= 13) {
      w.push_back((char)d->allocationStatus);
      t += show(d->allocationStatus);
      if (d->allocationStatus == 2 || d->allocationStatus == 3) {
        wU(w, d->prevSeqId);
        t += show(d->prevSeqId);
      }
    }
    m.enc = [d, v](char* b, int64_t& o, int64_t x) { return Protocol::encodeHeader(v, b, o, x, *d); };
  } else if (kind == "checkpoints") {
    auto c = std::make_shared<vector<Checkpoint>>();
    int n = g.p(80) ? g.in(0, 4) : g.in(100, 300);
    wU(w, n);
    t = show((int64_t)n);
    for (int i = 0; i < n; ++i) {
      Checkpoint k(n31(g));
      k.numBlocks = nn(g);
      k.lastBlockReceivedBytes = nn(g);
      k.lastBlockSeqId = nn(g);
      k.lastBlockOffset = nn(g);
      wU(w, k.port);
      wU(w, k.numBlocks);
      t += show(k.port) + show(k.numBlocks);
      if (v >= 16) {
        wU(w, k.lastBlockReceivedBytes);
        t += show(k.lastBlockReceivedBytes);
      }
      if (v >= 21) {
        wU(w, k.lastBlockSeqId);
        wU(w, k.lastBlockOffset);
        t += show(k.lastBlockSeqId) + show(k.lastBlockOffset);
      }
      c->push_back(k);
    }
    m.enc = [c, v](char* b, int64_t& o, int64_t x) {
      return Protocol::encodeCheckpoints(v, b, o, x, *c);
    };
  } else if (kind == "done") {
    int64_t n = nn(g), y = nn(g);
    wU(w, n);
    t = show(n);
    if (v >= 16) {
      wU(w, y);
      t += show(y);
    }
    m.enc = [=](char* b, int64_t& o, int64_t x) { return Protocol::encodeDone(v, b, o, x, n, y); };
  } else if (kind == "settings") {
    auto s = std::make_shared<Settings>();
    s->readTimeoutMillis = n31(g);
    s->writeTimeoutMillis = n31(g);
    s->transferId = str(g, 1024);
    s->enableChecksum = g.p(50);
    s->sendFileChunks = g.p(50);
    s->blockModeDisabled = g.p(50);
    s->enableHeartBeat = g.p(50);
    wU(w, v);
    wU(w, s->readTimeoutMillis);
    wU(w, s->writeTimeoutMillis);
    wS(w, s->transferId);
    t = show(v) + show(s->readTimeoutMillis) + show(s->writeTimeoutMillis) + show(s->transferId);
    if (v >= 12) {
      w.push_back((char)(s->enableChecksum + 2 * s->sendFileChunks + 4 * s->blockModeDisabled +
                         8 * s->enableHeartBeat));
      t += show(s->enableChecksum) + show(s->sendFileChunks) + show(s->blockModeDisabled) +
           show(s->enableHeartBeat);
    }
    m.enc = [s, v](char* b, int64_t& o, int64_t x) {
      return Protocol::encodeSettings(v, b, o, x, *s);
    };
  } else if (kind == "size") {
    int64_t n = nn(g);
    wU(w, n);
    t = show(n);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return Protocol::encodeSize(b, o, x, n); };
  } else if (kind == "footer") {
    int32_t n = (int32_t)g.next();
    if (g.p(40)) {
      n = (int32_t)g.wide();
    }
    wZ(w, n);
    t = show(n);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return Protocol::encodeFooter(b, o, x, n); };
  } else if (kind == "abort") {
    int32_t pv = n31(g);
    ErrorCode e = (ErrorCode)g.in(0, 60);
    int64_t k = nn(g);
    wF(w, pv, 4);
    w.push_back((char)e);
    wF(w, k, 8);
    t = show(pv) + show((int)e) + show(k);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return Protocol::encodeAbort(b, o, x, pv, e, k); };
  } else if (kind == "chunkscmd") {
    int64_t p = nn(g), q = nn(g);
    wF(w, p, 8);
    wF(w, q, 8);
    t = show(p) + show(q);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return Protocol::encodeChunksCmd(b, o, x, p, q); };
  } else if (kind == "encryption") {
    int e = g.in(0, (int)NUM_ENC_TYPES - 1);
    string iv = g.p(80) ? g.bytes(16) : str(g, 200);
    int32_t ti = n31(g);
    wU(w, e);
    wS(w, iv);
    wF(w, ti, 4);
    t = show(e) + show(iv) + show(ti);
    m.enc = [=](char* b, int64_t& o, int64_t x) {
      return Protocol::encodeEncryptionSettings(b, o, x, (EncryptionType)e, iv, ti);
    };
  } else if (kind == "chunklist") {
    auto l = std::make_shared<vector<FileChunksInfo>>();
    int n = g.in(0, 5);
    t = show((int64_t)n);
    for (int i = 0; i < n; ++i) {
      string nm = str(g, 300);
      FileChunksInfo f(nn(g), nm, nn(g));
      int k = g.in(0, 6);
      wU(w, f.getSeqId());
      wS(w, nm);
      wU(w, f.getFileSize());
      wU(w, k);
      t += show(f.getSeqId()) + show(nm) + show(f.getFileSize()) + show((int64_t)k);
      for (int j = 0; j < k; ++j) {
        int64_t a = nn(g), b = nn(g);
        if (a > b) {
          std::swap(a, b);
        }
        f.addChunk(Interval(a, b));
        wU(w, a);
        wU(w, b);
        t += show(a) + show(b);
      }
      l->push_back(std::move(f));
    }
    m.enc = [l](char* b, int64_t& o, int64_t x) {
      for (auto& f : *l) {
        if (!Protocol::encodeFileChunksInfo(b, o, x, f)) {
          return false;
        }
      }
      return true;
    };
  } else if (kind == "u64") {
    uint64_t u = (uint64_t)g.wide();
    wU(w, u);
    t = show((int64_t)u);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return encodeVarU64(b, x, o, u); };
  } else if (kind == "i64") {
    int64_t u = g.wide();
    wZ(w, u);
    t = show(u);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return encodeVarI64(b, x, o, u); };
  } else if (kind == "string") {
    string s = str(g, 3000);
    wS(w, s);
    t = show(s);
    m.enc = [=](char* b, int64_t& o, int64_t x) { return encodeString(b, x, o, s); };
  } else {
    int n = atoi(kind.c_str() + 1) / 8;
    int64_t u = nn(g);
    if (n < 8) {
      u &= (1ull << (8 * n - 1)) - 1;
    }
    wF(w, u, n);
    t = show(u);
    m.enc = [=](char* b, int64_t& o, int64_t x) {
      return n == 2 ? encodeInt16FixedLength(b, x, o, u)
                    : n == 4 ? encodeInt32FixedLength(b, x, o, u) : encodeInt64FixedLength(b, x, o, u);
    };
  }
  return m;
}

struct Buf {  // exactly sized heap block: one byte past it is poisoned
  char* p;
  explicit Buf(size_t n) : p(new char[n]) {
  }
  explicit Buf(const string& s) : p(new char[s.size()]) {
    memcpy(p, s.data(), s.size());
  }
  ~Buf() {
    delete[] p;
  }
};

static void roundtrip(hk::Rng& g, const string& kind, int v, bool allSizes) {
  Msg m = gen(g, kind, v);
  string id = kind;
  HK_CTX("round %s v%d %s", kind.c_str(), v, hk::hex(m.wire).c_str());
  hk::eval(hk::h64(kind + char(v) + m.wire));
  int64_t need = m.wire.size();
  int64_t start = g.p(50) ? 0 : g.in(1, 20);
  {
    Buf b(start + need);
    memset(b.p, 0x5a, start + need);
    int64_t off = start;
    // fits exactly
    if (!m.enc(b.p, off, start + need)) {
      hk::fail("encode-refused:" + id, hk::fmt("v%d an exactly fitting buffer of %ld was refused; %s", v,
                                               (long)need, hk::hex(m.wire).c_str()));
      return;
    }
    if (off != start + need || memcmp(b.p + start, m.wire.data(), need)) {
      hk::fail("encode-bytes:" + id,
               hk::fmt("v%d offset %ld (want %ld) bytes %s want %s", v, (long)(off - start), (long)need,
                       hk::hex(b.p + start, std::min<int64_t>(need, off - start)).c_str(),
                       hk::hex(m.wire).c_str()));
      return;
    }
    for (int i = 0; i < start; ++i) {
      if (b.p[i] != 0x5a) {
        hk::fail("encode-before:" + id, "bytes before the offset changed");
      }
    }
    // decode with trailing garbage and exactly
    for (int extra : {0, 7}) {
      if (kind == "chunklist" && extra) {
        continue;
      }
      string all = string(start, 'x') + m.wire + g.bytes(extra);
      Buf d(all);
      int64_t o = start;
      string got = realDecode(kind, v, d.p, o, all.size());
      if (got != m.meaning || o != start + need) {
        hk::fail("decode:" + id, hk::fmt("v%d consumed %ld of %ld, got %s want %s", v, (long)(o - start),
                                         (long)need, hk::clean(got).substr(0, 400).c_str(),
                                         hk::clean(m.meaning).substr(0, 400).c_str()));
        return;
      }
    }
  }
  // every smaller buffer must be refused without writing past it
  int64_t step = allSizes || need < 60 ? 1 : std::max<int64_t>(1, need / 40);
  for (int64_t cut = 0; cut < need; cut += step) {
    Buf b(start + cut);
    int64_t off = start;
    HK_CTX("short %s v%d max %ld %s", kind.c_str(), v, (long)cut, hk::hex(m.wire).c_str());
    bool ok = m.enc(b.p, off, start + cut);
    if (ok || off > start + cut || off < start) {
      hk::fail("encode-short:" + id,
               hk::fmt("v%d buffer %ld of %ld: result %d offset %ld", v, (long)cut, (long)need, ok,
                       (long)(off - start)));
      return;
    }
    hk::evalOnly();
  }
  hk::count("roundtrips_" + kind);
}

// one hostile decode; anything accepted must be what the bytes say
static void hostile(const string& kind, int v, const string& bytes, size_t start) {
  HK_CTX("hostile %s v%d start %zu %s", kind.c_str(), v, start, hk::hex(bytes).c_str());
  hk::eval(hk::h64(kind + char(v) + char(start) + bytes));
  Buf b(bytes);
  int64_t off = start;
  string got = realDecode(kind, v, b.p, off, bytes.size());
  size_t ro = start;
  string want = refDecode(kind, v, bytes, ro);
  if (off < (int64_t)start || off > (int64_t)bytes.size()) {
    hk::fail("offset:" + kind, hk::fmt("v%d offset %ld outside [%zu,%zu]", v, (long)off, start, bytes.size()));
  }
  if (got != "!" && (want != got || (size_t)off != ro)) {
    hk::fail("accepted-wrong:" + kind,
             hk::fmt("v%d %s: offset %ld/%zu got %s want %s", v, hk::hex(bytes).c_str(), (long)off, ro,
                     hk::clean(got).substr(0, 300).c_str(), hk::clean(want).substr(0, 300).c_str()));
  }
  hk::count(got == "!" ? "refused" : "accepted");
}

static string mutate(hk::Rng& g, string s) {
  int n = g.in(1, 3);
  while (n--) {
    size_t at = s.empty() ? 0 : g.next() % s.size();
    switch (g.in(0, 6)) {
      case 0:
        if (!s.empty()) {
          s[at] = (char)g.next();
        }
        break;
      case 1:
        if (!s.empty()) {
          s[at] ^= 1 << g.in(0, 7);
        }
        break;
      case 2:
        s.resize(at);
        break;
      case 3:
        s.insert(at, g.bytes(g.in(1, 5)));
        break;
      case 4:
        s.insert(at, string(g.in(1, 10), '\xff'));
        break;
      case 5: {  // a wild varint in place
        string w;
        wU(w, (uint64_t)g.wide());
        s.replace(at, std::min<size_t>(s.size() - at, w.size()), w);
        break;
      }
      default:
        s.erase(at, g.in(1, 4));
    }
  }
  return s;
}

int main(int argc, char** argv) {
  hk::init();
  string mode = hk::sarg(argc, argv, "mode", "round");
  hk::Rng g(hk::arg(argc, argv, "seed", 1));
  long n = hk::arg(argc, argv, "n", 20);
  if (mode == "round") {
    // all magnitudes of integers, both sides of each length change
    for (int bit = 0; bit < 64; ++bit) {
      for (int d = -3; d <= 3; ++d) {
        uint64_t u = (1ull << bit) + (uint64_t)(int64_t)d;
        for (int k = 0; k < 2; ++k) {
          string w;
          k ? wZ(w, (int64_t)u) : wU(w, u);
          for (size_t room = 0; room <= w.size() + 1; ++room) {
            Buf b(room);
            int64_t off = 0;
            HK_CTX("varint %d %llx room %zu", k, (unsigned long long)u, room);
            bool ok = k ? encodeVarI64(b.p, room, off, (int64_t)u) : encodeVarU64(b.p, room, off, u);
            if (ok != (room >= w.size()) ||
                (ok && (off != (int64_t)w.size() || memcmp(b.p, w.data(), w.size())))) {
              hk::fail("varint-encode", hk::fmt("kind %d value %llx room %zu ok %d off %ld", k,
                                                (unsigned long long)u, room, ok, (long)off));
            }
            int64_t o2 = 0;
            uint64_t ru = 0;
            int64_t rs = 0;
            if (ok) {
              Buf c(w);
              bool dok = k ? decodeVarI64(c.p, w.size(), o2, rs) : decodeVarU64(c.p, w.size(), o2, ru);
              if (!dok || o2 != (int64_t)w.size() || (k ? (uint64_t)rs != u : ru != u)) {
                hk::fail("varint-decode", hk::fmt("kind %d value %llx", k, (unsigned long long)u));
              }
            }
            hk::eval(hk::h64(hk::fmt("%d %llx %zu", k, (unsigned long long)u, room)));
          }
          string sb = "ab";
          size_t c = k ? encodeVarI64(sb, (int64_t)u) : encodeVarU64(sb, u);
          if (sb != "ab" + w || c != w.size()) {
            hk::fail("varint-string", hk::fmt("kind %d value %llx", k, (unsigned long long)u));
          }
        }
      }
    }
    for (int req = -3; req < 80; ++req) {
      for (int cur = 10; cur < 70; ++cur) {
        int r = Protocol::negotiateProtocol(req, cur);
        int want = req < 10 ? 0 : std::min(req, cur);
        hk::eval(hk::h64(hk::fmt("neg%d %d", req, cur)));
        if (r != want) {
          hk::fail("negotiate", hk::fmt("requested %d current %d gives %d", req, cur, r));
        }
      }
      if (Protocol::negotiateProtocol(req) !=
          (req < 10 ? 0 : std::min(req, Protocol::protocol_version))) {
        hk::fail("negotiate-default", hk::fmt("requested %d", req));
      }
    }
    for (int v = 10; v <= Protocol::protocol_version + 2; ++v) {
      int want = 30 + (v >= 16 ? 10 : 0) + (v >= 21 ? 20 : 0);
      if (Protocol::getMaxLocalCheckpointLength(v) != want) {
        hk::fail("checkpoint-length", hk::fmt("v%d", v));
      }
      for (const char* k : kKinds) {
        for (int i = 0; i < n; ++i) {
          roundtrip(g, k, v, i == 0);
        }
      }
      // the "no block" checkpoint of old senders
      string w;
      wU(w, 2);
      for (int i = 0; i < 2; ++i) {
        wU(w, 5 + i);
        wU(w, 77);
        if (v >= 16) {
          wU(w, 0);
        }
        if (v >= 21) {
          w += string(9, '\xff');
          if (v < 27) {
            w.push_back(1);
          }
          wU(w, 9 + i);
        }
      }
      Buf b(w);
      int64_t off = 0;
      vector<Checkpoint> cs;
      bool ok = Protocol::decodeCheckpoints(v, b.p, off, w.size(), cs);
      if (v < 27 && (!ok || off != (int64_t)w.size() || cs.size() != 2 ||
          (v >= 21 && (cs[1].lastBlockSeqId != -1 || cs[1].lastBlockOffset != 10 ||
                       cs[1].hasPartialBlockInfo())) || cs[1].port != 6 || cs[1].numBlocks != 77 ||
          cs[1].hasSeqId != (v >= 21))) {
        hk::fail("checkpoint-minus-one", hk::fmt("v%d ok %d off %ld n %zu", v, ok, (long)off, cs.size()));
      }
    }
    // chunk lists split over several buffers: everything arrives once, in order
    for (int i = 0; i < n * 10; ++i) {
      vector<FileChunksInfo> l;
      string all;
      int cnt = g.in(0, 30);
      int64_t worst = 0;
      for (int j = 0; j < cnt; ++j) {
        string nm = g.bytes(g.in(0, 50));
        FileChunksInfo f(nn(g), nm, nn(g));
        for (int k = g.in(0, 5); k > 0; --k) {
          int64_t a = nn(g), b = nn(g);
          f.addChunk(Interval(std::min(a, b), std::max(a, b)));
        }
        worst = std::max(worst, Protocol::maxEncodeLen(f));
        l.push_back(std::move(f));
      }
      int64_t lead = g.in(0, 20);
      int64_t size = lead + worst + g.in(1, 300);
      vector<FileChunksInfo> back;
      int64_t at = 0;
      int rounds = 0;
      HK_CTX("chunk list seed-dependent case %d size %ld count %d", i, (long)size, cnt);
      while (at < cnt && rounds++ < 1000) {
        Buf b(size);
        int64_t off = lead;
        int64_t k = Protocol::encodeFileChunksInfoList(b.p, off, size, at, l);
        if (k <= 0 || off > size) {
          hk::fail("chunklist-progress", hk::fmt("encoded %ld at %ld of %d, offset %ld/%ld", (long)k,
                                                 (long)at, cnt, (long)off, (long)size));
          break;
        }
        size_t before = back.size();
        int64_t o2 = lead;
        Buf e(string(b.p, off));
        if (!Protocol::decodeFileChunksInfoList(e.p, o2, off, back) ||
            (int64_t)(back.size() - before) != k || o2 != off) {
          hk::fail("chunklist-decode", hk::fmt("%ld encoded, %zu decoded", (long)k, back.size() - before));
          break;
        }
        at += k;
      }
      bool same = back.size() == l.size();
      for (size_t j = 0; same && j < l.size(); ++j) {
        same = back[j] == l[j];
      }
      if (!same) {
        hk::fail("chunklist-content", hk::fmt("%zu of %d came back or differ", back.size(), cnt));
      }
      hk::eval(hk::h64(hk::fmt("cl%d %ld %d", i, (long)size, rounds)));
    }
    // chunk arithmetic against a bitmap
    for (int i = 0; i < n * 40; ++i) {
      int size = g.in(0, 60);
      vector<char> have(size + 1, 0);
      string nm = "f";
      FileChunksInfo f(1, nm, size);
      int64_t total = 0;
      for (int k = g.in(0, 8); k > 0; --k) {
        int64_t a = g.in(0, size), b = g.in(a, size);
        f.addChunk(Interval(a, b));
        total += b - a;
        for (int64_t x = a; x < b; ++x) {
          have[x] = 1;
        }
      }
      if (f.getTotalChunkSize() != total) {
        hk::fail("chunks-total", "sum of chunk sizes wrong");
      }
      f.mergeChunks();
      int64_t lastEnd = -1, covered = 0;
      bool good = true;
      for (auto& c : f.getChunks()) {
        good = good && c.start_ > lastEnd && c.end_ >= c.start_;
        lastEnd = c.end_;
        for (int64_t x = c.start_; x < c.end_; ++x) {
          good = good && have[x];
          ++covered;
        }
      }
      int64_t ones = 0;
      for (char c : have) {
        ones += c;
      }
      if (!good || covered != ones || f.getTotalChunkSize() != ones) {
        hk::fail("chunks-merge", hk::fmt("size %d covered %ld of %ld", size, (long)covered, (long)ones));
      }
      vector<char> rem(size + 1, 0);
      int64_t ask = size;
      for (auto& c : f.getRemainingChunks(ask)) {
        for (int64_t x = c.start_; x < c.end_; ++x) {
          if (x >= size || rem[x]) {
            hk::fail("chunks-remaining-range", "outside or twice");
            break;
          }
          rem[x] = 1;
        }
      }
      for (int x = 0; x < size; ++x) {
        if (rem[x] == have[x]) {
          hk::fail("chunks-remaining", hk::fmt("byte %d have %d remaining %d", x, have[x], rem[x]));
          break;
        }
      }
      hk::evalOnly();
    }
    hk::sample("every message kind and version 10.." + std::to_string(Protocol::protocol_version + 2));
  } else {
    const char* more[] = {"i32", "c32", "c64"};
    vector<string> kinds(kKinds, kKinds + sizeof kKinds / sizeof *kKinds);
    kinds.insert(kinds.end(), more, more + 3);
    // every string of length 0..2 and every first byte of longer ones
    for (auto& k : kinds) {
      for (int v : {10, 12, 13, 16, 21, 26, 27, 32}) {
        hostile(k, v, "", 0);
        for (int a = 0; a < 256; ++a) {
          hostile(k, v, string(1, (char)a), 0);
          string two(2, (char)a);
          two[1] = (char)g.next();
          hostile(k, v, two, 0);
          hostile(k, v, string(1, (char)a) + string(g.in(0, 30), '\xff'), 0);
          hostile(k, v, string(1, (char)a) + string(g.in(0, 60), '\0'), 0);
        }
      }
    }
    for (int v = 0; v <= Protocol::protocol_version + 1; ++v) {
      for (auto& k : kinds) {
        for (int i = 0; i < n; ++i) {
          Msg m = gen(g, k == "i32" ? "i64" : k == "c32" || k == "c64" ? "u64" : k, v);
          if (m.wire.size() > 600 && i % 16) {
            m.wire.resize(600);
          }
          // every truncation
          if (i < 3) {
            size_t step = std::max<size_t>(1, m.wire.size() / 200);
            for (size_t c = 0; c < m.wire.size(); c += step) {
              hostile(k, v, m.wire.substr(0, c), 0);
            }
          }
          size_t st = g.p(30) ? g.in(0, 9) : 0;
          for (int j = 0; j < 8; ++j) {
            string s = string(st, 'p') + mutate(g, m.wire);
            hostile(k, v, s, st);
          }
          string s = g.bytes(g.in(0, 80));
          hostile(k, v, s, g.in(0, s.size()));
        }
      }
    }
  }
  return hk::done();
}
