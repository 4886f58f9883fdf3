// C17 (and the URL part of C11): connection URLs against an independent parser.
#include <algorithm>
#include "hk.h"
#include "wdt/Protocol.h"
#include "wdt/WdtTransferRequest.h"
using namespace facebook::wdt;
using std::map;
using std::string;
using std::vector;

static string esc(const string& s) {
  string r;
  for (unsigned char c : s) {
    if (isalnum(c) || strchr(",:._+-", c) != nullptr) {
      if (c) {
        r.push_back(c);
        continue;
      }
    }
    r += hk::fmt("%%%02x", c);
  }
  return r;
}
static bool unesc(const string& s, string& out) {
  auto h = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '%') {
      out.push_back(s[i]);
    } else {
      if (i + 2 >= s.size() || h(s[i + 1]) < 0 || h(s[i + 2]) < 0) {
        return false;
      }
      out.push_back((char)(h(s[i + 1]) * 16 + h(s[i + 2])));
      i += 2;
    }
  }
  return true;
}
// decimal with optional sign and surrounding white space
static bool num(string s, int64_t lo, int64_t hi, int64_t& v) {
  size_t b = 0, e = s.size();
  while (b < e && isspace((unsigned char)s[b])) {
    ++b;
  }
  while (e > b && isspace((unsigned char)s[e - 1])) {
    --e;
  }
  bool neg = false;
  if (b < e && (s[b] == '-' || s[b] == '+')) {
    neg = s[b++] == '-';
  }
  if (b == e) {
    return false;
  }
  __int128 x = 0;
  for (; b < e; ++b) {
    if (s[b] < '0' || s[b] > '9') {
      return false;
    }
    x = x * 10 + (s[b] - '0');
    if (x > ((__int128)1 << 64)) {
      return false;
    }
  }
  x = neg ? -x : x;
  if (x < lo || x > hi) {
    return false;
  }
  v = (int64_t)x;
  return true;
}
struct Ref {
  bool ok{false};
  string host;
  int64_t port{-1};
  map<string, string> q;
};
static Ref parse(const string& u) {
  Ref r;
  if (u.compare(0, 6, "wdt://")) {
    return r;
  }
  string s = u.substr(6);
  size_t p;
  if (!s.empty() && s[0] == '[') {
    p = s.find(']');
    if (p == string::npos) {
      return r;
    }
    r.host = s.substr(1, p - 1);
    ++p;
  } else {
    p = std::min(s.find_first_of(":?"), s.size());
    r.host = s.substr(0, p);
  }
  bool ok = !r.host.empty();
  if (p < s.size() && s[p] == ':') {
    size_t e = std::min(s.find('?', p), s.size());
    ok = num(s.substr(p + 1, e - p - 1), INT32_MIN, INT32_MAX, r.port) && ok;
    p = e;
  }
  if (p < s.size()) {
    if (s[p] != '?') {
      return r;
    }
    string rest = s.substr(p + 1);
    size_t b = 0;
    while (b <= rest.size()) {
      size_t e = std::min(rest.find('&', b), rest.size());
      string kv = rest.substr(b, e - b);
      b = e + 1;
      if (kv.empty()) {
        continue;
      }
      size_t q = std::min(kv.find('='), kv.size());
      string k = kv.substr(0, q), v = q < kv.size() ? kv.substr(q + 1) : "", val;
      if (k.empty() || !unesc(v, val)) {
        ok = false;
      }
      if (!k.empty()) {
        r.q[k] = val;
      }
    }
  }
  r.ok = ok;
  return r;
}

static bool same(const WdtTransferRequest& a, const WdtTransferRequest& b, bool dir, string& why) {
#define F(x)                 \
  if (!(a.x == b.x)) {       \
    why += string(#x) + " "; \
  }
  F(transferId) F(protocolVersion) F(hostName) F(ports) F(encryptionData) F(destIdentifier) F(wdtNamespace)
  F(downloadResumptionEnabled) F(tls) F(ivChangeInterval)
  if (dir) {
    F(directory)
  }
  return why.empty();
}
static string host(hk::Rng& g) {
  switch (g.in(0, 4)) {
    case 0:
      return hk::fmt("%d.%d.%d.%d", (int)g.in(0, 255), (int)g.in(0, 255), (int)g.in(0, 255), (int)g.in(0, 255));
    case 1: {
      string s;
      for (int i = 0; i < 8; ++i) {
        s += (i ? ":" : "") + hk::fmt("%x", (int)g.in(0, 65535));
      }
      return s;
    }
    case 2:
      return g.p(50) ? "::1" : "fe80::1%eth0";
    default: {
      string s;
      const char* a = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._";
      for (int i = g.in(1, 60); i > 0; --i) {
        s += a[g.in(0, strlen(a) - 1)];
      }
      return s;
    }
  }
}
static string anyStr(hk::Rng& g) {
  switch (g.in(0, 6)) {
    case 0:
      return "";
    case 1:
      return g.bytes(g.in(1, 40));
    case 2: {
      const char* bits[] = {"&", "=", "?", "%", "%41", "[", "]", ":", "/", " ", "\n", "#", "+", "ports=1", "&&"};
      string s;
      for (int i = g.in(1, 8); i > 0; --i) {
        s += bits[g.in(0, 14)];
      }
      return s;
    }
    case 3:
      return string(1, (char)g.next());
    case 4:
      return g.bytes(g.in(300, 2000));
    default:
      return "id" + std::to_string(g.next());
  }
}

static void roundtrip(hk::Rng& g) {
  WdtTransferRequest r;
  r.hostName = host(g);
  r.transferId = anyStr(g);
  r.wdtNamespace = anyStr(g);
  r.destIdentifier = anyStr(g);
  r.directory = anyStr(g);
  r.protocolVersion = g.p(50) ? g.in(0, 100) : std::abs(g.wide() / 2);
  int np = g.p(80) ? g.in(1, 9) : g.in(1, 200);
  if (g.p(50)) {
    int st = g.in(1, 65536 - np);
    for (int i = 0; i < np; ++i) {
      r.ports.push_back(st + i);
    }
  } else {
    for (int i = 0; i < np; ++i) {
      r.ports.push_back(g.p(50) && i ? r.ports.back() + (g.p(30) ? -1 : 1) : g.in(1, 65535));
    }
    for (auto& p : r.ports) {
      p = std::min(65535, std::max(1, p));
    }
  }
  bool enc = g.p(60);
  if (enc) {
    r.encryptionData = EncryptionParams((EncryptionType)g.in(1, NUM_ENC_TYPES - 1),
                                        g.p(70) ? g.bytes(16) : g.bytes(g.in(1, 60)));
  }
  r.downloadResumptionEnabled = g.p(50);
  r.tls = g.p(50);
  r.ivChangeInterval = g.p(50) ? g.in(0, 1000) : std::abs(g.wide() / 2);
  string url = r.genWdtUrlWithSecret();
  HK_CTX("url %s", hk::clean(url).substr(0, 3000).c_str());
  hk::eval(hk::h64(url));
  for (unsigned char c : url) {
    if (c <= 32 || c > 126) {
      hk::fail("url-unprintable", "byte " + std::to_string(c) + " in " + url);
      break;
    }
  }
  WdtTransferRequest b(url);
  string why;
  if (b.errorCode != OK || !same(r, b, false, why)) {
    hk::fail("roundtrip:" + (why.empty() ? "error" : why.substr(0, why.find(' '))),
             "differs in " + why + " error " + errorCodeToStr(b.errorCode) + " url " + url);
  }
  if (!(b.directory.empty())) {
    hk::fail("roundtrip:dir-invented", url);
  }
  string again = b.genWdtUrlWithSecret();
  if (b.errorCode == OK && again != url) {
    hk::fail("roundtrip:second-url", url + " became " + again);
  }
  // equality agrees with the fields that make a connection
  WdtTransferRequest c = r;
  int which = g.in(0, 7);
  switch (which) {
    case 0:
      c.transferId += "x";
      break;
    case 1:
      c.protocolVersion++;
      break;
    case 2:
      c.directory += "y";
      break;
    case 3:
      c.hostName += "z";
      break;
    case 4:
      c.ports.push_back(3);
      break;
    case 5:
      c.encryptionData = EncryptionParams(ENC_AES128_CTR, "differentsecret..");
      break;
    case 6:
      c.destIdentifier += "q";
      break;
    case 7:
      c.wdtNamespace += "q";
      break;
  }
  if (!(r == WdtTransferRequest(r)) || c == r) {
    hk::fail("equality", hk::fmt("field %d", which));
  }
  // the loggable form: everything but the secret, and the directory
  string log = r.getLogSafeString();
  if (!enc) {
    WdtTransferRequest d(log);
    why.clear();
    if (d.errorCode != OK || !same(r, d, true, why)) {
      hk::fail("logsafe-roundtrip", "differs in " + why + " url " + log);
    }
  }
  // the secret's own printable form
  if (enc) {
    EncryptionParams p;
    string u = r.encryptionData.getUrlSafeString();
    if (EncryptionParams::unserialize(u, p) != OK || !(p == r.encryptionData) ||
        p.getSecret() != r.encryptionData.getSecret() || p.getType() != r.encryptionData.getType()) {
      hk::fail("key-text", u);
    }
  }
  hk::count("roundtrips");
}

static void hostile(const string& u) {
  HK_CTX("hostile url %s", hk::clean(u).substr(0, 2000).c_str());
  hk::eval(hk::h64("h" + u));
  string copy(u);
  WdtUri x(copy);
  Ref r = parse(u);
  auto bad = [&](const string& k, const string& w) { hk::fail(k, w + " for " + u.substr(0, 300) + " = " + hk::hex(u)); };
  if (x.getErrorCode() == OK) {
    if (!r.ok) {
      bad("uri-accepted-malformed", "no error reported");
    } else if (x.getHostName() != r.host || x.getPort() != r.port || x.getQueryParams() != r.q) {
      bad("uri-values-altered", "host " + x.getHostName() + " port " + std::to_string(x.getPort()));
    }
    hk::count("uri_accepted");
  } else {
    hk::count("uri_refused");
  }
  // reuse of an object must not leave anything behind
  WdtUri y("wdt://other:77?zz=1");
  y = copy;
  if (y.getErrorCode() != x.getErrorCode() || y.getHostName() != x.getHostName() || y.getPort() != x.getPort() ||
      y.getQueryParams() != x.getQueryParams()) {
    bad("uri-reuse", "assigning differs from constructing");
  }
  WdtTransferRequest t(copy);
  if (t.errorCode == OK) {
    hk::count("request_accepted");
    auto q = [&](const char* k) {
      auto i = r.q.find(k);
      return i == r.q.end() ? string() : i->second;
    };
    if (!r.ok) {
      bad("request-accepted-malformed", "no error reported");
      return;
    }
    if (t.hostName != r.host || t.transferId != q("id") || t.wdtNamespace != q("ns") ||
        t.destIdentifier != q("dstid") || t.directory != q("dir")) {
      bad("request-strings-altered", t.hostName);
    }
    int64_t v = Protocol::protocol_version;
    if (!q("recpv").empty() && !num(q("recpv"), INT64_MIN, INT64_MAX, v)) {
      bad("request-accepted-number", "recpv");
    }
    if (t.protocolVersion != v) {
      bad("request-number-altered", "recpv " + std::to_string(t.protocolVersion));
    }
    v = 0;
    if (!q("iv_change_int").empty() && !num(q("iv_change_int"), INT64_MIN, INT64_MAX, v)) {
      bad("request-accepted-number", "iv_change_int");
    }
    if (t.ivChangeInterval != v) {
      bad("request-number-altered", "iv_change_int " + std::to_string(t.ivChangeInterval));
    }
    for (const char* k : {"tls", "dr"}) {
      string s = q(k);
      bool got = k[0] == 't' ? t.tls : t.downloadResumptionEnabled;
      if ((s.empty() || s == "0") && got) {
        bad("request-bool-altered", k);
      }
      if (s == "1" && !got) {
        bad("request-bool-altered", k);
      }
    }
    vector<int64_t> want;
    string ps = q("ports");
    size_t b = 0;
    bool pok = true;
    while (b <= ps.size()) {
      size_t e = std::min(ps.find(',', b), ps.size());
      if (e > b) {
        int64_t z = 0;
        pok = num(ps.substr(b, e - b), INT32_MIN, INT32_MAX, z) && pok;
        want.push_back(z);
      }
      b = e + 1;
    }
    if (!pok) {
      bad("request-accepted-number", "ports");
    }
    if (want.empty()) {
      int64_t st = r.port, n = 0;
      if (st <= 0 && !num(q("start_port"), INT32_MIN, INT32_MAX, st)) {
        bad("request-accepted-number", "start_port");
      }
      if (!num(q("num_ports"), INT32_MIN, INT32_MAX, n)) {
        bad("request-accepted-number", "num_ports");
      }
      for (int64_t i = 0; i < n && i < 70000; ++i) {
        want.push_back(st + i);
      }
      if (n < 0 || st < 0) {
        bad("request-accepted-range", "ports");
      }
    }
    if (vector<int64_t>(t.ports.begin(), t.ports.end()) != want) {
      bad("request-ports-altered", std::to_string(t.ports.size()) + " ports, want " + std::to_string(want.size()));
    }
    string e = q("Enc");
    if (!e.empty()) {
      size_t c = e.find(':');
      string want2;
      bool eok = c != string::npos && c > 0 && c + 1 < e.size();
      int type = -1;
      if (eok) {
        string ty = e.substr(0, c);
        ty.erase(0, std::min(ty.find_first_not_of('0'), ty.size()));
        type = ty == "1" ? 1 : ty == "2" ? 2 : -1;
        string hx = e.substr(c + 1), esc;
        for (size_t i = 0; i + 1 < hx.size(); i += 2) {
          esc += "%" + hx.substr(i, 2);
        }
        eok = hx.size() % 2 == 0 && type > 0 && hx.find('%') == string::npos && unesc(esc, want2);
      }
      if (!eok || t.encryptionData.getType() != type || t.encryptionData.getSecret() != want2) {
        bad("request-key-altered", e);
      }
    } else if (t.encryptionData.isSet()) {
      bad("request-key-invented", "");
    }
    // what was understood is what is passed on
    bool real = !t.ports.empty();
    for (int p : t.ports) {
      real = real && p > 0 && p < 65536;
    }
    if (real) {
      WdtTransferRequest t2(t.genWdtUrlWithSecret());
      string why;
      bool plain = t.hostName.find_first_of("[]?") == string::npos;
      if (plain && (t2.errorCode != OK || !same(t, t2, false, why))) {
        bad("request-reprint", why + t.genWdtUrlWithSecret());
      }
    }
  } else {
    hk::count("request_refused");
  }
}

int main(int argc, char** argv) {
  hk::init();
  hk::Rng g(hk::arg(argc, argv, "seed", 1));
  long n = hk::arg(argc, argv, "n", 2000);
  string mode = hk::sarg(argc, argv, "mode", "all");
  if (mode == "all") {
    string all;
    for (int c = 0; c < 256; ++c) {
      all.push_back((char)c);
      string s(1, (char)c), out;
      if (WdtUri::escape(s) != esc(s)) {
        hk::fail("escape", hk::fmt("byte %d gives %s", c, WdtUri::escape(s).c_str()));
      }
      if (!WdtUri::unescape(out, folly::StringPiece(WdtUri::escape(s))) || out != s) {
        hk::fail("unescape", hk::fmt("byte %d", c));
      }
      for (int d = 0; d < 256; ++d) {  // every two-byte string and every % sequence
        string t = s + (char)d, o2, o3, w3, o4, w4;
        if (WdtUri::escape(t) != esc(t) || !WdtUri::unescape(o2, folly::StringPiece(esc(t))) || o2 != t) {
          hk::fail("escape2", hk::hex(t));
        }
        string p = "%" + t, p2 = "a%" + s;
        bool ok = WdtUri::unescape(o3, folly::StringPiece(p)), wok = unesc(p, w3);
        if (ok && (!wok || o3 != w3)) {
          hk::fail("unescape-sequence", hk::hex(p));
        }
        if (!ok && wok) {
          hk::fail("unescape-refused", hk::hex(p));
        }
        bool ok4 = WdtUri::unescape(o4, folly::StringPiece(p2));
        if (ok4) {
          hk::fail("unescape-short", hk::hex(p2));
        }
        hk::eval(hk::h64("e" + t));
      }
      int h = WdtUri::fromHex((char)c);
      int wh = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
      if (h != wh) {
        hk::fail("fromHex", std::to_string(c));
      }
    }
    for (long i = 0; i < n; ++i) {
      roundtrip(g);
    }
  }
  // hostile
  vector<string> seeds = {
      "wdt://host:22356?num_ports=3&recpv=32&id=1&tls=0&iv_change_int=0",
      "wdt://[::1]:1?num_ports=1",
      "wdt://h?ports=1,2,5&Enc=2:00112233445566778899aabbccddeeff&dir=%2ftmp",
      "wdt://h?start_port=5&num_ports=2&dr=1&tls=1&ns=a&dstid=b",
      "wdt://a:5?a=b&&c=d&e=f&num_ports=2",
      "wdt://a:5?&num_ports=1&id=5&",
      "wdt://a:1?num_ports=2147483647",
      "wdt://a:2147483647?num_ports=10",
      "wdt://a:70000?num_ports=1",
      "wdt://a:1?num_ports=-1",
      "wdt://a:1?num_ports=99999999999",
      "wdt://a?start_port=-5&num_ports=3",
      "wdt://a?ports=,,,",
      "wdt://a?ports=99999999999",
      "wdt://a?ports=1,x,3",
      "wdt://a:1?num_ports=1&Enc=1000000001:aa",
      "wdt://a:1?num_ports=1&Enc=ffffffffff1:aa",
      "wdt://a:1?num_ports=1&Enc=1:",
      "wdt://a:1?num_ports=1&Enc=:",
      "wdt://a:1?num_ports=1&Enc=0:aa",
      "wdt://a:1?num_ports=1&Enc=3:aa",
      "wdt://a:1?num_ports=1&Enc=1:aaa",
      "wdt://a:1?num_ports=1&Enc=1:AA",
      "wdt://a:1?num_ports=1&Enc=1:a:",
      "wdt://a:1?num_ports=1&recpv=99999999999999999999",
      "wdt://a:1?num_ports=1&tls=maybe",
      "wdt://a:1?num_ports=1&dr=2",
      "wdt://a:1?num_ports=1&id=%",
      "wdt://a:1?num_ports=1&id=%4",
      "wdt://a:1?num_ports=1&id=%4G",
      "wdt://a:1?num_ports=1&=x",
      "wdt://a:1?num_ports=1&iv_change_int=-5",
      "wdt://[::1]x:1?num_ports=1",
      "wdt://:1?num_ports=1",
      "wdt://?num_ports=1",
      "wdt://[]:1?num_ports=1",
      "wdt://[:1?num_ports=1",
      "wdt://a:?num_ports=1",
      "wdt://a:1:2?num_ports=1",
      "wdt:/",
      "",
      "wdt://",
      "WDT://a:1?num_ports=1",
      "xwdt://a:1?num_ports=1"};
  for (auto& s : seeds) {
    hostile(s);
    for (size_t i = 0; i <= s.size(); ++i) {
      hostile(s.substr(0, i));
    }
  }
  const char* toks[] = {"wdt://", "[", "]", ":", "?", "&", "=", "%", ",", "host", "1", "22356", "-1", "num_ports",
                        "ports", "id", "Enc", "2:00ff", "recpv", "tls", "dr", "99999999999999999999", "dir",
                        "%41", "start_port", "ns", "0", "\xff"};
  for (long i = 0; i < n * 4; ++i) {
    string s = seeds[g.in(0, seeds.size() - 1)];
    if (g.p(25)) {
      s = "wdt://";
      for (int k = g.in(1, 14); k > 0; --k) {
        s += toks[g.in(0, sizeof toks / sizeof *toks - 1)];
      }
    } else {
      for (int k = g.in(1, 4); k > 0; --k) {
        size_t at = s.empty() ? 0 : g.next() % s.size();
        switch (g.in(0, 4)) {
          case 0:
            if (!s.empty()) {
              s[at] = (char)g.next();
            }
            break;
          case 1:
            s.erase(at, g.in(1, 3));
            break;
          case 2:
            s.insert(at, toks[g.in(0, sizeof toks / sizeof *toks - 1)]);
            break;
          case 3:
            s.insert(at, g.bytes(g.in(1, 3)));
            break;
          default:
            s.resize(at);
        }
      }
    }
    hostile(s);
  }
  hk::sample(seeds[2]);
  return hk::done();
}
