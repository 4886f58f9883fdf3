// C07: transfer logs, well formed or not, against an independent reader.
#include <fcntl.h>
#include <sys/resource.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <wdt/util/TransferLogManager.h>
#include "hk.h"
using namespace facebook::wdt;
using std::map;
using std::set;
using std::string;
using std::vector;

static void wU(string& o, uint64_t v) {
  for (int i = 0; i < 8 && v >= 128; ++i, v /= 128) o.push_back((char)(128 + v % 128));
  o.push_back((char)v);
}
static void wS(string& o, const string& s) { wU(o, s.size()); o += s; }
struct Rd {
  const string& b;
  size_t p = 0;
  bool ok = true;
  explicit Rd(const string& s) : b(s) {}
  uint64_t u() {
    uint64_t v = 0;
    for (int i = 0; i < 9 && ok; ++i) {
      if (p >= b.size()) { ok = false; return 0; }
      unsigned char c = b[p++];
      if (i == 8) return v | ((uint64_t)c << 56);
      v |= (uint64_t)(c & 127) << (7 * i);
      if (!(c & 128)) return v;
    }
    return v;
  }
  int64_t c64() { uint64_t v = u(); ok = ok && v <= (uint64_t)INT64_MAX; return (int64_t)v; }
  string s() {
    uint64_t n = u();
    if (!ok || n > b.size() - p) { ok = false; return ""; }
    string r = b.substr(p, n);
    p += n;
    return r;
  }
  bool end() { return ok && p == b.size(); }
};

enum { HDR, CREATE, BLOCK, INVAL, RESIZE, DIRINV };
struct Ent {
  int type;
  int64_t ts = 0, a = 0, b = 0, c = 0;  // header: version, config   create: seq, size   block: seq, off, len
  string s, t;                          // header: recovery id, ip   create: name
  string enc() const {
    string o(1, (char)type);
    wU(o, ts);
    switch (type) {
      case HDR: wU(o, a); wS(o, s); wS(o, t); wU(o, b); break;
      case CREATE: wS(o, s); wU(o, a); wU(o, b); break;
      case BLOCK: wU(o, a); wU(o, b); wU(o, c); break;
      case RESIZE: wU(o, a); wU(o, b); break;
      case INVAL: wU(o, a); break;
      default: break;
    }
    string r;
    r.push_back((char)(o.size() & 255));
    r.push_back((char)(o.size() >> 8));
    return r + o;
  }
  string str() const { return hk::fmt("%s(%s%s %ld,%ld,%ld)", (const char*[]){"hdr", "create", "block", "inval", "resize", "dirinv"}[type], s.substr(0, 30).c_str(), t.substr(0, 20).c_str(), a, b, c); }
};
typedef vector<std::pair<int64_t, int64_t>> Iv;
struct FileRef {
  string name;
  int64_t disk = 0, logged = 0;
  Iv iv;
  bool operator==(const FileRef& o) const { return name == o.name && disk == o.disk && iv == o.iv; }
};
static string gDir;
struct Setup {
  string recovery;
  int64_t config;
  bool prealloc, tree;
  map<string, int64_t> disk;  // name -> size of what is there
};
struct Ref {
  int status = 0;  // 0 ok, 1 start over (another session), 2 invalid
  map<int64_t, FileRef> files;
  set<int64_t> missing;
  size_t keep = 0;  // bytes that remain of the log
  int entries = 0;
  string ip, why;
};
static Iv merge(Iv v) {
  std::sort(v.begin(), v.end());
  Iv o;
  for (auto& x : v)
    if (!o.empty() && x.first <= o.back().second) o.back().second = std::max(o.back().second, x.second);
    else o.push_back(x);

  return o;
}
static Ref refParse(const string& log, const Setup& S) {
  Ref r;
  size_t p = 0;
  bool hdr = false;
  auto bad = [&](const char* w) { r.status = 2; r.why = w; r.files.clear(); r.missing.clear(); r.keep = log.size(); return r; };
  r.keep = log.size();
  while (p < log.size()) {
    if (log.size() - p < 2) { r.keep = p; break; }
    int n = (int16_t)((uint8_t)log[p] | (uint8_t)log[p + 1] << 8);
    if (n <= 0 || n > TransferLogManager::kMaxEntryLength) return bad("length");
    if (log.size() - p - 2 < (size_t)n) { r.keep = p; break; }
    string e = log.substr(p + 2, n);
    p += 2 + n;
    r.entries++;
    int type = (signed char)e[0];
    string body = e.substr(1);
    Rd d(body);
    if (r.status == 1 && type != HDR) continue;
    d.c64();
    switch (type) {
      case HDR: {
        int64_t ver = d.c64();
        string rec = d.s(), ip = d.s();
        int64_t cfg = d.c64();
        if (!d.end() || ver != 2 || ip.empty()) return bad("header");
        r.ip = ip;
        if (rec != S.recovery || cfg != S.config) { r.status = 1; r.files.clear(); r.missing.clear(); }
        else { r.status = 0; hdr = true; }
        break;
      }
      case CREATE: {
        string name = d.s();
        int64_t seq = d.c64(), size = d.c64();
        if (!hdr || !d.end() || S.tree) return bad("create");
        if (r.files.count(seq) || r.missing.count(seq)) return bad("duplicate");
        auto it = S.disk.find(name);
        int64_t have = it == S.disk.end() ? -1 : it->second;
        if (have < 0) {  // damaged names may be those of directories ("", "d"), or outside
          struct stat st;
          if (stat((gDir + "/" + name).c_str(), &st) == 0) have = st.st_size;
        }
        if (have < 0 || (S.prealloc && have < size)) r.missing.insert(seq);
        else { FileRef f; f.name = name; f.disk = have; f.logged = size; r.files[seq] = f; }
        break;
      }
      case BLOCK: {
        int64_t seq = d.c64(), off = d.c64(), len = d.c64();
        if (!hdr || !d.end() || S.tree) return bad("block");
        if (r.missing.count(seq)) break;
        auto it = r.files.find(seq);
        if (it == r.files.end()) return bad("unknown block");
        if ((__int128)off + len > it->second.disk) { r.files.erase(seq); r.missing.insert(seq); break; }
        it->second.iv.push_back({off, off + len});
        break;
      }
      case RESIZE: {
        int64_t seq = d.c64(), size = d.c64();
        if (!hdr || !d.end() || S.tree) return bad("resize");
        if (r.missing.count(seq)) break;
        auto it = r.files.find(seq);
        if (it == r.files.end()) return bad("unknown resize");
        if (size < it->second.logged) return bad("shrinks");
        if (S.prealloc && size > it->second.disk) { r.files.erase(seq); r.missing.insert(seq); break; }
        it->second.logged = size;
        break;
      }
      case INVAL: {
        int64_t seq = d.c64();
        if (!hdr || !d.end() || S.tree) return bad("inval");
        if (!r.files.count(seq) && !r.missing.count(seq)) return bad("unknown inval");
        r.files.erase(seq);
        r.missing.erase(seq);
        break;
      }
      case DIRINV:
        if (!d.end()) return bad("dirinv");
        hdr = false;
        r.status = 1;
        r.files.clear();
        r.missing.clear();
        break;
      default: return bad("type");
    }
  }
  if (r.status != 0) { r.files.clear(); r.missing.clear(); }
  for (auto& f : r.files) f.second.iv = merge(f.second.iv);
  return r;
}

static string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void spit(const string& p, const string& b) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(b.data(), b.size());
}
static string brief(const Ref& r) {
  string s = hk::fmt("status %d %s keep %zu", r.status, r.why.c_str(), r.keep);
  for (auto& f : r.files) {
    s += hk::fmt(" %ld:%s/%ld", f.first, f.second.name.substr(0, 20).c_str(), f.second.disk);
    for (auto& i : f.second.iv) s += hk::fmt("[%ld,%ld)", i.first, i.second);
  }
  return s.substr(0, 600);
}

// what the code says, in the reference's terms
static map<int64_t, FileRef> conv(const vector<FileChunksInfo>& v, const string& key) {
  map<int64_t, FileRef> m;
  for (auto& c : v) {
    FileRef f;
    f.name = c.getFileName();
    f.disk = c.getFileSize();
    for (auto& i : c.getChunks()) {
      f.iv.push_back({i.start_, i.end_});
      if (i.start_ < 0 || i.end_ < i.start_ || i.end_ > f.disk)
        hk::fail("claims-beyond-disk:" + key, hk::fmt("%s [%ld,%ld) of %ld", f.name.c_str(), i.start_, i.end_, f.disk));
    }
    if (m.count(c.getSeqId())) hk::fail("duplicate-seq:" + key, hk::fmt("%ld", c.getSeqId()));
    m[c.getSeqId()] = f;
  }
  return m;
}
// empty intervals carry no data; whether they are listed does not matter
static map<int64_t, FileRef> norm(map<int64_t, FileRef> m) {
  for (auto& f : m) {
    Iv o;
    for (auto& i : f.second.iv) if (i.second > i.first) o.push_back(i);
    f.second.iv = merge(o);
  }
  return m;
}

static void opts(WdtOptions& o, const Setup& S) {

  o.enable_download_resumption = true;
  o.resume_using_dir_tree = S.tree;
  o.disable_preallocation = !S.prealloc;
  o.transfer_log_write_interval_ms = 5;

}

static string ctx;
static int statusOf(ErrorCode e) { return e == OK ? 0 : e == INCONSISTENT_DIRECTORY ? 1 : e == INVALID_LOG ? 2 : 3; }

static bool verify(const string& log, const Setup& S, const string& key, Ref* out = nullptr) {
  Ref r = refParse(log, S);
  spit(gDir + "/.wdt.log", log);
  WdtOptions o; opts(o, S);
  TransferLogManager m(o, gDir);
  if (m.openLog() != OK) { hk::fail("open:" + key, ctx); return false; }
  vector<FileChunksInfo> v;
  ErrorCode e = m.parseAndMatch(S.recovery, S.config, v);
  int st = statusOf(e);
  bool good = true;
  auto bad = [&](const string& k, const string& d) { hk::fail(k + ":" + key, d + " | want " + brief(r) + " | " + ctx); good = false; };
  if (r.status == 0 ? st != 0 : st == 0) bad("status", hk::fmt("got %s", errorCodeToStr(e).c_str()));
  if (m.getResumptionStatus() != e) bad("resumption-status", errorCodeToStr(m.getResumptionStatus()));
  auto got = conv(v, key);
  if (norm(got) != norm(r.files)) { Ref g; g.files = got; bad("chunks", "got " + brief(g)); }
  m.closeLog();
  string after = slurp(gDir + "/.wdt.log");
  if (r.status == 0 && st == 0) {
    if (after.compare(0, r.keep, log, 0, r.keep) || after.size() < r.keep) bad("log-kept-part", hk::fmt("%zu -> %zu bytes", log.size(), after.size()));
    Ref again = refParse(after, S);
    if (again.status != 0 || norm(again.files) != norm(r.files) || again.keep != after.size())
      bad("log-after-parse", "after: " + brief(again));
    // a missing file must be recorded: its number may be used again
    if (!again.missing.empty()) bad("missing-not-recorded", "after: " + brief(again));
  } else if (st == 2) {
    if (after.size() > log.size() || log.compare(0, after.size(), after)) bad("invalid-log-changed", hk::fmt("%zu -> %zu", log.size(), after.size()));
    Ref again = refParse(after, S);
    if (again.status == 0 && !again.files.empty()) bad("invalid-log-now-valid", "after: " + brief(again));
  } else if (st == 1) {
    Ref again = refParse(after, S);
    if (again.status == 0) bad("inconsistent-now-valid", "after: " + brief(again));
  }
  hk::count(st == 0 ? "parse.ok" : st == 1 ? "parse.inconsistent" : "parse.invalid");
  if (out) *out = r;
  return good;
}

static int64_t num(hk::Rng& g, int64_t lim) {
  switch (g.u(12)) {
    case 0: return 0;
    case 1: return INT64_MAX - (int64_t)g.u(3);
    case 2: return (int64_t)(g.next() >> (1 + g.u(62)));
    default: return g.u(lim + 1);
  }
}

struct World {
  Setup S;
  vector<string> names;
  vector<Ent> ents;
  map<int64_t, std::pair<string, int64_t>> live;
  int64_t seq = 0;
};
static void wipe() {
  string cmd;
  for (auto& n : {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "d/g0", "d/g1", ".wdt.log", ".wdt.log.bug"}) unlink((gDir + "/" + n).c_str());
}
static World world(hk::Rng& g) {
  wipe();
  World w;
  w.S.recovery = g.p(10) ? "" : g.p(10) ? g.bytes(1 + g.u(40)) : "rec-" + std::to_string(g.u(3));
  w.S.config = g.p(50) ? 0 : num(g, 100);
  w.S.prealloc = g.p(60);
  w.S.tree = g.p(6);
  for (auto& n : {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "d/g0", "d/g1"}) {
    w.names.push_back(n);
    if (g.p(85)) {
      int64_t size = g.p(10) ? 0 : g.p(5) ? 5000000000LL : g.u(2000);
      int fd = open((gDir + "/" + n).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, size)) { perror("file"); _exit(3); }
      close(fd);
      w.S.disk[n] = size;
    }
  }
  return w;
}
static Ent header(const World& w, hk::Rng& g, bool right) {
  Ent e{HDR};
  e.ts = g.next() >> 20;
  e.a = 2;
  e.s = w.S.recovery;
  e.t = "::1";
  e.b = w.S.config;
  if (!right) switch (g.u(4)) {
      case 0: e.s += "x"; break;
      case 1: e.b ^= 1; break;
      case 2: e.a = g.p(50) ? 1 : num(g, 10); break;
      default: e.t = ""; break;
    }
  return e;
}
static Ent entry(World& w, hk::Rng& g, int wild) {
  Ent e{BLOCK};
  e.ts = g.next() >> (10 + g.u(40));
  auto pick = [&]() -> int64_t {
    if (w.live.empty() || g.p(wild)) return num(g, 12);
    auto it = w.live.begin();
    std::advance(it, g.u(w.live.size()));
    return it->first;
  };
  int k = g.u(100);
  if (w.live.empty() ? k < 80 : k < 25) {
    e.type = CREATE;
    e.s = g.p(wild) ? (g.p(50) ? "nosuch" : g.bytes(g.u(30))) : w.names[g.u(w.names.size())];
    e.a = g.p(wild) ? num(g, 12) : w.seq++;
    int64_t disk = w.S.disk.count(e.s) ? w.S.disk[e.s] : g.u(2000);
    e.b = g.p(wild) ? num(g, disk + 5) : w.S.prealloc ? g.u(disk + 1) : disk;
    if (g.p(60)) e.b = disk;
    else if (g.p(wild)) e.b = std::max<int64_t>(0, disk + (int64_t)g.u(3) - 1);
    w.live[e.a] = {e.s, e.b};
  } else if (k < 82) {
    e.a = pick();
    int64_t disk = w.live.count(e.a) && w.S.disk.count(w.live[e.a].first) ? w.S.disk[w.live[e.a].first] : 1000;
    e.b = g.p(wild) ? num(g, disk) : g.u(disk + 1);
    e.c = g.p(wild) ? num(g, disk) : g.u(disk - std::min(disk, e.b) + 1);
    if (g.p(20) && e.b <= disk) e.c = disk - e.b;
    if (g.p(wild) && e.b <= disk) e.c = disk - e.b + 1;
  } else if (k < 90) {
    e.type = RESIZE;
    e.a = pick();
    int64_t disk = w.live.count(e.a) && w.S.disk.count(w.live[e.a].first) ? w.S.disk[w.live[e.a].first] : 1000;
    e.b = g.p(wild) ? num(g, disk) : disk;
    if (g.p(wild)) e.b = std::max<int64_t>(0, disk + (int64_t)g.u(3) - 1);
  } else if (k < 96 || !wild) {
    e.type = INVAL;
    e.a = pick();
    w.live.erase(e.a);
  } else if (k < 98) {
    e.type = DIRINV;
    w.live.clear();
  } else {
    e = header(w, g, g.p(50));
  }
  return e;
}

static void parseCase(uint64_t seed) {
  hk::Rng g(seed);
  World w = world(g);
  int wild = g.p(50) ? 0 : g.p(50) ? 3 : 20;
  vector<string> raw;
  if (!g.p(3)) { raw.push_back(header(w, g, g.p(92)).enc()); }
  int n = g.p(5) ? 0 : g.u(g.p(20) ? 80 : 14);
  string what;
  for (int i = 0; i < n; i++) {
    Ent e = entry(w, g, wild);
    what += e.str() + " ";
    raw.push_back(e.enc());
  }
  if (g.p(15)) {  // a second session
    Ent d{DIRINV};
    if (g.p(70)) raw.push_back(d.enc());
    w.live.clear();
    raw.push_back(header(w, g, true).enc());
    for (int i = g.u(6); i > 0; i--) { Ent e = entry(w, g, wild); what += e.str() + " "; raw.push_back(e.enc()); }
  }
  string key = wild == 0 ? "wellformed" : "odd";
  if (g.p(15) && raw.size() > 1) { std::swap(raw[g.u(raw.size())], raw[g.u(raw.size())]); key = "reordered"; }
  if (g.p(5) && raw.size() > 1) { raw.insert(raw.begin() + g.u(raw.size()), raw[g.u(raw.size())]); key = "repeated"; }
  string log;
  for (auto& x : raw) log += x;
  if (g.p(25) && !log.empty()) { log.resize(g.u(log.size())); key = "truncated"; }
  if (g.p(30) && !log.empty()) {
    for (int i = 1 + g.u(3); i > 0; i--) {
      size_t at = g.u(log.size());
      switch (g.u(4)) {
        case 0: log[at] = (char)g.next(); break;
        case 1: log[at] ^= 1 << g.u(8); break;
        case 2: log.erase(at, 1 + g.u(3)); break;
        default: log.insert(at, g.bytes(1 + g.u(12))); break;
      }
      if (log.empty()) break;
    }
    key = "damaged";
  } else if (g.p(3)) { log = g.bytes(g.u(300)); key = "random"; }
  else if (g.p(2)) { log += string(g.u(9000), (char)g.next()); key = "padded"; }
  ctx = hk::fmt("seed %lu prealloc %d tree %d: %s", seed, w.S.prealloc, w.S.tree, what.substr(0, 700).c_str());
  snprintf(hk::ctxbuf(), 8000, "mode=parse %s log=%s", ctx.c_str(), hk::hex(log.data(), std::min<size_t>(log.size(), 1500)).c_str());
  verify(log, w.S, key);
  // every truncation of small ones
  if (log.size() < 160 && g.p(10))
    for (size_t k = 0; k < log.size(); k++) { string t = log.substr(0, k); verify(t, w.S, "truncated"); hk::eval(hk::h64(t)); }
  hk::eval(hk::h64(log) ^ w.S.prealloc);
  // printing it changes nothing and shows every entry up to the first bad one
  if (g.p(30)) {
    spit(gDir + "/.wdt.log", log);
    WdtOptions o; opts(o, w.S);
    TransferLogManager m(o, gDir);
    if (m.openLog() != OK) { hk::fail("open:print", ctx); return; }
    std::ostringstream os;
    auto* old = std::cout.rdbuf(os.rdbuf());
    bool ok = m.parseAndPrint();
    std::cout.rdbuf(old);
    m.closeLog();
    if (slurp(gDir + "/.wdt.log") != log) hk::fail("print-changed-log:" + key, ctx);
    string s = os.str();
    Ref r = refParse(log, w.S);
    if (r.status == 0 && !w.S.tree) {
      if (!ok && key == "wellformed") hk::fail("print-failed:" + key, ctx);
      long lines = std::count(s.begin(), s.end(), '\n');
      bool nl = w.S.recovery.find('\n') != string::npos || key != "wellformed";
      if (!nl && lines != r.entries) hk::fail("print-lines:" + key, hk::fmt("%ld lines for %d entries ", lines, r.entries) + ctx);
    }
    hk::count("printed");
  }
}

// entries written through the manager, over several sessions
static void session(uint64_t seed) {
  hk::Rng g(seed);
  World w = world(g);
  w.S.tree = false;
  if (w.S.recovery.empty()) w.S.recovery = "r";
  string file = gDir + "/.wdt.log";
  auto orig = w.S.disk;
  map<int64_t, FileRef> model;
  int64_t seq = 0;
  string ip = "10.0.0.1";
  int sessions = 1 + g.u(4);
  bool first = true;
  string what;
  for (int sn = 0; sn < sessions; sn++) {
    // a crash may have left part of an entry behind
    string torn;
    if (!first && g.p(30)) {
      Ent e{BLOCK, 5, 1, 0, 1};
      torn = e.enc();
      torn.resize(1 + g.u(torn.size() - 1));
      spit(file, slurp(file) + torn);
      what += "torn ";
    }
    if (!first && g.p(20) && !w.S.disk.empty()) {  // a file vanished
      auto it = w.S.disk.begin();
      std::advance(it, g.u(w.S.disk.size()));
      unlink((gDir + "/" + it->first).c_str());
      what += "unlink(" + it->first + ") ";
      for (auto m = model.begin(); m != model.end();) if (m->second.name == it->first) m = model.erase(m); else ++m;
      w.S.disk.erase(it);
    }
    // the receiver goes on with the number after the largest known one
    vector<string> gone;
    for (auto& n : w.names) if (!w.S.disk.count(n) && orig.count(n)) gone.push_back(n);
    bool back = !first && !gone.empty() && g.p(40);
    seq = 0;
    for (auto& f : model) seq = std::max(seq, f.first);
    WdtOptions o; opts(o, w.S);
    o.transfer_log_write_interval_ms = g.p(50) ? 1 : 8;
    TransferLogManager m(o, gDir);
    if (m.openLog() != OK) { hk::fail("session-open", what); return; }
    vector<FileChunksInfo> v;
    ErrorCode e = m.parseAndMatch(w.S.recovery, w.S.config, v);
    ctx = hk::fmt("seed %lu session %d: ", seed, sn) + what.substr(0, 1500);
    snprintf(hk::ctxbuf(), 8000, "mode=session %s", ctx.c_str());
    if (e != OK) { hk::fail("session-parse", errorCodeToStr(e) + " " + ctx); m.closeLog(); return; }
    auto got = norm(conv(v, "session"));
    auto mm = model;
    for (auto& f : mm) f.second.disk = w.S.disk[f.second.name];
    if (got != norm(mm)) {
      Ref a, b; a.files = got; b.files = mm;
      hk::fail("session-chunks", "got " + brief(a) + " want " + brief(b) + " | " + ctx);
      m.closeLog();
      return;
    }
    if (m.startThread() != OK) hk::fail("session-start", ctx);
    bool other = !first && g.p(15);
    if (other) ip += "1";
    bool ipok = m.verifySenderIp(ip);
    if (other && ipok) hk::fail("session-other-sender-trusted", ctx);
    if (!other && !ipok) hk::fail("session-same-sender-refused", ctx);
    if (other) { model.clear(); what += "othersender "; hk::count("other-sender"); }
    m.writeLogHeader();
    first = false;
    if (back) {  // written anew by this session
      const string& n = gone[g.u(gone.size())];
      // another size would make its old blocks inconsistent: starting over is right then
      int64_t size = orig[n];
      spit(gDir + "/" + n, "");
      if (truncate((gDir + "/" + n).c_str(), size) != 0) hk::fail("harness", "truncate");
      w.S.disk[n] = size;
      what += "back(" + n + ") ";
      hk::count("came-back");
    }
    int k = g.u(15);
    for (int i = 0; i < k; i++) {
      int op = model.empty() ? 0 : g.u(10);
      if (op < 3) {
        const string& n = w.names[g.u(w.names.size())];
        if (!w.S.disk.count(n)) continue;
        bool used = false;
        for (auto& f : model) used |= f.second.name == n;
        if (used) continue;
        FileRef f;
        f.name = n;
        f.logged = w.S.prealloc ? g.u(w.S.disk[n] + 1) : w.S.disk[n];
        seq += 1 + g.u(3);
        model[seq] = f;
        m.addFileCreationEntry(n, seq, f.logged);
        what += hk::fmt("create(%s,%ld,%ld) ", n.c_str(), seq, f.logged);
        continue;
      }
      auto it = model.begin();
      std::advance(it, g.u(model.size()));
      int64_t disk = w.S.disk[it->second.name];
      if (op < 8) {
        int64_t off = g.u(disk + 1), len = g.u(disk - off + 1);
        if (g.p(30)) { off = 0; len = disk; }
        m.addBlockWriteEntry(it->first, off, len);
        it->second.iv.push_back({off, off + len});
        what += hk::fmt("block(%ld,%ld,%ld) ", it->first, off, len);
      } else if (op < 9) {
        m.addFileResizeEntry(it->first, disk);
        it->second.logged = disk;
        what += hk::fmt("resize(%ld,%ld) ", it->first, disk);
      } else {
        m.addFileInvalidationEntry(it->first);
        what += hk::fmt("inval(%ld) ", it->first);
        model.erase(it);
      }
      if (g.p(10)) usleep(g.u(3000));
    }
    if (g.p(25)) { m.compactLog(); what += "compact "; hk::count("compacted"); }
    else if (g.p(5)) { m.invalidateDirectory(); model.clear(); what += "invalidate "; m.closeLog(); hk::count("invalidated");
      // nothing but a new header makes it valid again
      TransferLogManager q(o, gDir);
      vector<FileChunksInfo> x;
      if (q.openLog() != OK) return;
      ErrorCode c = q.parseAndMatch(w.S.recovery, w.S.config, x);
      if (c == OK || !x.empty()) hk::fail("session-invalidated-trusted", ctx);
      q.verifySenderIp(ip);
      q.writeLogHeader();
      q.closeLog();
      hk::eval(seed * 16 + sn);
      continue;
    }
    // another process cannot take the log meanwhile
    if (g.p(10)) {
      TransferLogManager q(o, gDir);
      if (q.openLog() == OK) { hk::fail("session-not-locked", ctx); q.closeLog(); }
    }
    m.closeLog();
    hk::eval(hk::h64(what));
    // the file, read independently, describes the model too
    Ref r = refParse(slurp(file), w.S);
    auto m2 = model;
    for (auto& f : m2) f.second.disk = w.S.disk[f.second.name];
    if (r.status != 0 || norm(r.files) != norm(m2)) { Ref b; b.files = m2; hk::fail("session-file", "file " + brief(r) + " want " + brief(b) + " | " + ctx + what); return; }
  }
}

// the disk fills up while the log is written
static void diskFull(uint64_t seed) {
  hk::Rng g(seed);
  World w = world(g);
  w.S.tree = false;
  if (w.S.recovery.empty()) w.S.recovery = "r";
  string file = gDir + "/.wdt.log";
  map<int64_t, FileRef> told;
  WdtOptions o; opts(o, w.S);
  o.transfer_log_write_interval_ms = 1;
  struct rlimit old;
  getrlimit(RLIMIT_FSIZE, &old);
  string what;
  {
    TransferLogManager m(o, gDir);
    if (m.openLog() != OK) return;
    vector<FileChunksInfo> v;
    if (m.parseAndMatch(w.S.recovery, w.S.config, v) != OK || !v.empty()) { hk::fail("full-empty-log", hk::fmt("seed %lu", seed)); m.closeLog(); return; }
    m.startThread();
    m.verifySenderIp("1.2.3.4");
    struct rlimit lim = {(rlim_t)g.u(400), old.rlim_max};
    snprintf(hk::ctxbuf(), 8000, "mode=full seed %lu limit %lu", seed, (unsigned long)lim.rlim_cur);
    setrlimit(RLIMIT_FSIZE, &lim);
    m.writeLogHeader();
    int64_t seq = 0;
    int k = 1 + g.u(25);
    for (int i = 0; i < k; i++) {
      if (told.empty() || g.p(35)) {
        const string& n = w.names[g.u(w.names.size())];
        if (!w.S.disk.count(n)) continue;
        FileRef f;
        f.name = n;
        f.logged = w.S.disk[n];
        told[++seq] = f;
        m.addFileCreationEntry(n, seq, f.logged);
      } else {
        auto it = told.begin();
        std::advance(it, g.u(told.size()));
        int64_t disk = w.S.disk[it->second.name];
        int64_t off = g.u(disk + 1), len = g.u(disk - off + 1);
        m.addBlockWriteEntry(it->first, off, len);
        it->second.iv.push_back({off, off + len});
      }
      if (g.p(20)) usleep(g.u(2500));
    }
    if (g.p(20)) { m.invalidateDirectory(); hk::count("full.invalidated"); }
    else if (g.p(20)) { m.compactLog(); hk::count("full.compacted"); }
    m.closeLog();
    setrlimit(RLIMIT_FSIZE, &old);
    if (slurp(file).size() > lim.rlim_cur) hk::fail("full-harness", "limit not effective");
    if (slurp(file).size() == lim.rlim_cur) hk::count("full.reached");
  }
  string log = slurp(file);
  ctx = hk::fmt("seed %lu", seed);
  Ref r;
  verify(log, w.S, "full", &r);
  // nothing it says was not told
  TransferLogManager m(o, gDir);
  if (m.openLog() != OK) { hk::fail("full-open", ctx); return; }
  vector<FileChunksInfo> v;
  ErrorCode e = m.parseAndMatch(w.S.recovery, w.S.config, v);
  hk::count(e == OK ? "full.usable" : "full.startover");
  for (auto& f : conv(v, "full")) {
    if (!told.count(f.first) || told[f.first].name != f.second.name) { hk::fail("full-unknown-file", ctx); continue; }
    auto t = merge(told[f.first].iv);
    for (auto& i : f.second.iv) {
      bool in = i.first == i.second;
      for (auto& k : t) in |= k.first <= i.first && i.second <= k.second;
      if (!in) hk::fail("full-unknown-chunk", hk::fmt("%ld [%ld,%ld) ", f.first, i.first, i.second) + ctx);
    }
  }
  m.closeLog();
  hk::eval(hk::h64(log));
}

int main(int argc, char** argv) {
  hk::init();
  uint64_t seed = hk::arg(argc, argv, "seed", 1);
  long n = hk::arg(argc, argv, "n", 1000);
  string mode = hk::sarg(argc, argv, "mode", "parse");
  gDir = hk::sarg(argc, argv, "dir", "");
  if (gDir.size() < 6) return 3;
  signal(SIGXFSZ, SIG_IGN);
  mkdir(gDir.c_str(), 0755);
  mkdir((gDir + "/d").c_str(), 0755);
  for (long i = 0; i < n; i++) {
    uint64_t s = seed * 1000003ull + i;
    if (mode == "parse") parseCase(s);
    else if (mode == "full") diskFull(s);
    else session(s);
  }
  hk::done();
  return 0;
}
