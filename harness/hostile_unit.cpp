// A real receiver against peers that send whatever they like.
#include "hk.h"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <functional>
#include <thread>
#include "wdt/Protocol.h"
#include "wdt/Receiver.h"
#include "wdt/Sender.h"
#include "wdt/util/ClientSocket.h"
#include <folly/hash/Checksum.h>
using namespace facebook::wdt;
using std::string;
using std::vector;

static string gBase;
static bool gOutside;
static int64_t ms() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000ll + t.tv_nsec / 1000000;
}
struct NoAbort : IAbortChecker {
  bool shouldAbort() const override { return false; }
};
static NoAbort gNo;

// ---- file system
typedef std::map<string, string> Tree;  // path -> content, directories end in /
static void walk(const string& root, const string& rel, const string& skip, Tree& t) {
  string d = root + (rel.empty() ? "" : "/" + rel);
  if (d == skip) return;
  DIR* p = opendir(d.c_str());
  if (!p) return;
  while (dirent* e = readdir(p)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat((root + "/" + r).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      t[r + "/"] = "";
      walk(root, r, skip, t);
    } else {
      string c;
      int fd = open((root + "/" + r).c_str(), O_RDONLY | O_NOFOLLOW);
      static char b[65536];
      ssize_t k;
      while (fd >= 0 && (k = read(fd, b, sizeof b)) > 0) c.append(b, k);
      if (fd >= 0) close(fd);
      t[r] = c;
    }
  }
  closedir(p);
}
static Tree tree(const string& root, const string& skip = "") {
  Tree t;
  walk(root, "", skip, t);
  return t;
}
static string diffOf(const Tree& a, const Tree& b) {
  for (auto& x : b) {
    auto i = a.find(x.first);
    if (i == a.end()) return "new " + x.first;
    if (i->second != x.second) return "changed " + x.first;
  }
  for (auto& x : a) if (!b.count(x.first)) return "gone " + x.first;
  return "";
}
static void put(const string& p, const string& c) {
  int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size()) {
    perror(p.c_str());
    exit(3);
  }
  close(fd);
}
static void wipe(const string& p) {  // below gBase only
  if (p.compare(0, gBase.size() + 1, gBase + "/")) abort();
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (!S_ISDIR(st.st_mode)) {
    unlink(p.c_str());
    return;
  }
  vector<string> n;
  DIR* d = opendir(p.c_str());
  while (dirent* e = d ? readdir(d) : nullptr) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
  if (d) closedir(d);
  for (auto& x : n) wipe(p + "/" + x);
  rmdir(p.c_str());
}

// the destination is so deep that no name of ours leaves the scratch folder
struct Place {
  string root, dst;
  Tree before;
  vector<string> outside;  // names of files outside, as seen from dst
  explicit Place(hk::Rng& g) {
    static int n;
    root = gBase + "/p" + std::to_string(n++);
    mkdir(root.c_str(), 0755);
    string p = root, up;
    vector<string> ps;
    for (int i = 0; i < 14; ++i) {
      p += "/l" + std::to_string(i);
      mkdir(p.c_str(), 0755);
      ps.push_back(p);
    }
    for (int i = 0; i < 14; ++i) {
      put(ps[i] + "/keep", g.bytes(20));
    }
    dst = p + "/dst";
    mkdir(dst.c_str(), 0755);
    put(p + "/dst_x", "neighbour");
    mkdir((p + "/dst2").c_str(), 0755);
    put(p + "/dst2/f", "neighbour");
    for (int i = 1; i < 11; ++i) {
      up += "../";
      outside.push_back(up + "keep");
    }
    outside.push_back("../dst_x");
    outside.push_back("../dst2/f");
    outside.push_back("../new");
    outside.push_back("../newd/x");
    outside.push_back(p + "/keep");
    outside.push_back(p + "/abs_new");
    outside.push_back("/" + p + "/keep");
  }
  void snap() { before = tree(root, dst); }
  void check(const string& key, const string& what) {
    if (!gOutside) return;
    string d = diffOf(before, tree(root, dst));
    if (!d.empty()) hk::fail("outside-touched:" + key, d + " after " + what);
  }
  ~Place() { wipe(root); }
};

// ---- messages as a sender would build them
struct Msg {
  string bytes, what;
};
static string name(hk::Rng& g, const Place& p) {
  static const char* odd[] = {"", "/", ".", "..", "../", "a/", "a//b", "./a", "a/./b", "a/../b", "a/b/..", "...", "..a", "a..", ".../x", "a/..b/c",
                              "../dst/x", "x/../../dst/y", "x/../../dst_x", "a/../../../l13/keep", " ", "\\..\\x", "~", "-rf", "*", "a\nb",
                              ".wdt.log", ".wdt.log.bug", "d/.wdt.log", "con\x01", "\xff\xfe", "a/b/c/d/e/f/g/h"};
  int k = g.u(100);
  if (k < 30) return odd[g.u(sizeof odd / sizeof *odd)];
  if (k < 50) return p.outside[g.u(p.outside.size())];
  if (k < 55) return string("nul") + '\0' + "x";
  if (k < 60) return string(g.in(200, 300), 'n');
  if (k < 63) {
    string s;
    for (int i = 0; i < 700; ++i) s += "dd/";
    return s + "f";
  }
  if (k < 66) return string(g.p(80) ? g.in(1, 5000) : g.in(1, 17000), 'y');
  if (k < 72) {
    string s = g.bytes(g.in(1, 12));
    for (auto& c : s) if (c == '/' || c == '.') c = '_';
    return s;
  }
  string s;
  int n = g.in(1, 4);
  for (int i = 0; i < n; ++i) s += (i ? "/" : "") + string(g.p(50) ? "d" : "s") + std::to_string(g.u(3));
  return s;
}
// independent statement of what may be accepted
static bool acceptable(const string& n) {
  if (n.empty() || n[0] == '/' || n.back() == '/' || n.find('\0') != string::npos) return false;
  size_t i = 0;
  while (i <= n.size()) {
    size_t e = n.find('/', i);
    if (e == string::npos) e = n.size();
    if (n.compare(i, e - i, "..") == 0 && e - i == 2) return false;
    i = e + 1;
  }
  return true;
}
static bool storable(const string& n, const string& dst) {
  size_t i = 0;
  string last;
  while (i <= n.size()) {
    size_t e = n.find('/', i);
    if (e == string::npos) e = n.size();
    if (e - i > 255) return false;
    last = n.substr(i, e - i);
    i = e + 1;
  }
  return last != "." && n.size() + dst.size() + 1 < 4096;
}
static int64_t plus(int64_t a, int64_t b) {
  int64_t r;
  return __builtin_add_overflow(a, b, &r) ? INT64_MAX : r;
}
static int64_t num(hk::Rng& g, int64_t sane) {
  if (g.p(70)) return sane;
  if (g.p(10)) return 0;
  // (the encoders refuse negative ones, damage makes those)
  return std::max<int64_t>(0, g.p(50) ? g.wide() : plus(sane, g.in(-2, 2)));
}
static Msg settings(hk::Rng& g, int ver, const string& id, bool sane, bool chunks, bool checksum) {
  Settings s;
  s.readTimeoutMillis = sane ? 400 : std::min<int64_t>(num(g, 400), INT32_MAX);
  s.writeTimeoutMillis = sane ? 400 : std::min<int64_t>(num(g, 400), INT32_MAX);
  s.transferId = id;
  s.enableChecksum = checksum;
  s.sendFileChunks = chunks;
  s.blockModeDisabled = g.p(50);
  s.enableHeartBeat = g.p(30);
  char b[4096];
  int64_t off = 0;
  b[off++] = Protocol::SETTINGS_CMD;
  Protocol::encodeSettings(ver, b, off, sizeof b, s);
  return {string(b, off), hk::fmt("SETTINGS(id%s r%d w%d %s%s)", id.substr(0, 6).c_str(), s.readTimeoutMillis, s.writeTimeoutMillis,
                                  chunks ? "chunks " : "", checksum ? "crc" : "")};
}
struct FileMsg : Msg {
  string name, data;
};
static FileMsg file(hk::Rng& g, int ver, const string& n, int64_t seq, const string& data, int64_t dataSize, int64_t offset, int64_t size,
                    FileAllocationStatus st, int64_t prev, bool checksum, bool goodFooter) {
  BlockDetails d;
  d.fileName = n;
  d.seqId = seq;
  d.dataSize = dataSize;
  d.offset = offset;
  d.fileSize = size;
  d.allocationStatus = st;
  d.prevSeqId = prev;
  vector<char> v(20000);
  char* b = v.data();
  int64_t off = 0;
  b[off++] = Protocol::FILE_CMD;
  b[off++] = OK;
  int64_t lenAt = off;
  off += 2;
  Protocol::encodeHeader(ver, b, off, v.size(), d);
  int16_t len = off;
  memcpy(b + lenAt, &len, 2);
  string out(b, off);
  out += data;
  if (checksum) {
    int32_t c = folly::crc32c((const uint8_t*)data.data(), data.size(), 0);
    if (!goodFooter) c ^= 1 << g.u(31);
    off = 0;
    b[off++] = Protocol::FOOTER_CMD;
    Protocol::encodeFooter(b, off, 64, c);
    out += string(b, off);
  }
  FileMsg m;
  m.bytes = out;
  m.what = hk::fmt("FILE('%s' seq %ld %ld@%ld of %ld st %d)", hk::clean(n.substr(0, 40)).c_str(), (long)seq, (long)dataSize, (long)offset, (long)size, st);
  m.name = n;
  m.data = data;
  return m;
}
static Msg sizeMsg(int64_t n) {
  char b[64];
  int64_t off = 0;
  b[off++] = Protocol::SIZE_CMD;
  Protocol::encodeSize(b, off, sizeof b, n);
  return {string(b, off), hk::fmt("SIZE(%ld)", (long)n)};
}
static Msg doneMsg(int ver, int64_t blocks, int64_t bytes, int status = OK) {
  char b[256] = {0};
  int64_t off = 0;
  b[off++] = Protocol::DONE_CMD;
  b[off++] = status;
  Protocol::encodeDone(ver, b, off, Protocol::kMaxDone, blocks, bytes);
  return {string(b, 256), hk::fmt("DONE(%ld %ld)", (long)blocks, (long)bytes)};
}

// ---- one hostile connection
struct Session {
  int port = 0;    // index
  int key = 0;     // 0 none, 1 right, 2 wrong, 3 wrong type
  bool right = false;  // the transfer id occurs
  bool orderly = false;  // waits for DONE and acknowledges
  string bytes, what;
  vector<int> cuts;
  int gapMs = 0, startMs = 0, end = 0;  // fin, rst, hold, read
  bool finished = false, patient = false;  // told of timeouts of its own
};

static void runSession(Session& s, const WdtTransferRequest& req, uint64_t seed) {
  hk::Rng g(seed);
  usleep(s.startMs * 1000);
  WdtOptions opt;
  opt.read_timeout_millis = 600;
  opt.write_timeout_millis = 600;
  opt.connect_timeout_millis = 500;
  ThreadCtx ctx(opt, true);
  ctx.setAbortChecker(&gNo);
  EncryptionParams e = req.encryptionData;
  if (s.key == 0) e = EncryptionParams();
  if (s.key == 2) e = EncryptionParams(req.encryptionData.getType() == ENC_NONE ? ENC_AES128_GCM : req.encryptionData.getType(), "wrong key wrong!");
  if (s.key == 3) e = EncryptionParams(req.encryptionData.getType() == ENC_AES128_CTR ? ENC_AES128_GCM : ENC_AES128_CTR, "wrong key wrong!");
  ClientSocket sock(ctx, "127.0.0.1", req.ports[s.port], e, 0);
  if (sock.connect() != OK) return;
  hk::count("hostile_connections");
  size_t at = 0;
  for (size_t i = 0; i <= s.cuts.size() && at < s.bytes.size(); ++i) {
    size_t to = i < s.cuts.size() ? std::min<size_t>(s.cuts[i], s.bytes.size()) : s.bytes.size();
    if (to <= at) continue;
    string piece = s.bytes.substr(at, to - at);
    if (sock.write(&piece[0], piece.size(), true) != (int)piece.size()) break;
    at = to;
    if (s.gapMs) usleep(s.gapMs * 1000);
  }
  if (s.orderly) {
    for (int i = 0; i < 3000; ++i) {
      char c;
      int r = sock.readWithTimeout(&c, 1, 4000);
      if (r != 1) break;
      if (c == Protocol::WAIT_CMD || c == Protocol::HEART_BEAT_CMD) continue;
      if (c == Protocol::DONE_CMD) {
        sock.write(&c, 1);
        sock.shutdownWrites();
        s.finished = sock.expectEndOfStream() == OK;
      }
      break;
    }
    sock.closeNoCheck();
    return;
  }
  if (s.end == 1) {
    linger l = {1, 0};
    setsockopt(sock.getFd(), SOL_SOCKET, SO_LINGER, &l, sizeof l);
  } else if (s.end == 2) {
    usleep(150000);
  } else if (s.end == 3) {
    char b[4096];
    while (sock.readWithTimeout(b, sizeof b, 100, false) > 0) {
    }
  } else if (s.end == 4) {
    sock.shutdownWrites();
    usleep(50000);
  }
  sock.closeNoCheck();
}

struct Config {
  int ports, ver;
  EncryptionType enc;
  bool resume, treeMode, del, overwrite, skip;
  string id;
  string str() const {
    return hk::fmt("ports %d v%d enc %d%s%s%s%s%s", ports, ver, (int)enc, resume ? " resume" : "", treeMode ? " tree" : "", del ? " del" : "",
                   overwrite ? " ow" : "", skip ? " skip" : "");
  }
};
static Config config(hk::Rng& g) {
  Config c;
  c.ports = g.in(1, 3);
  static int vs[] = {32, 32, 32, 32, 32, 31, 29, 27, 26, 24, 23, 21, 16, 13, 12, 10};
  c.ver = vs[g.u(16)];
  c.enc = c.ver < 23 ? ENC_NONE : (EncryptionType)g.u(3);
  c.resume = g.p(40);
  c.treeMode = c.resume && g.p(50);
  c.del = c.resume && g.p(60);
  c.overwrite = g.p(40);
  c.skip = !c.resume && g.p(5);
  c.id = "id" + std::to_string(g.next());
  return c;
}
static void setup(hk::Rng& g, const Config& c, WdtOptions& o) {
  o.encryption_type = c.enc == ENC_NONE ? "none" : c.enc == ENC_AES128_CTR ? "aes128ctr" : "aes128gcm";
  o.enable_download_resumption = c.resume;
  o.resume_using_dir_tree = c.treeMode;
  o.disable_preallocation = c.treeMode || g.p(30);
  o.delete_extra_files = c.del;
  o.overwrite = c.overwrite;
  o.skip_writes = c.skip;
  o.num_ports = c.ports;
  o.accept_timeout_millis = 20;
  o.max_accept_retries = 20;
  o.accept_window_millis = 100;
  o.read_timeout_millis = 250;
  o.write_timeout_millis = 250;
  o.abort_check_interval_millis = 20;
  o.buffer_size = g.p(50) ? 8192 : 65536;
  o.fsync = g.p(20);
  o.progress_report_interval_millis = 0;
}

// what is being done while the receiver runs is known to the death callback
static std::atomic<int64_t> gDeadline{0};
static void watchdog() {
  std::thread([] {
    while (true) {
      usleep(100000);
      int64_t d = gDeadline;
      if (d && ms() > d) {
        hk::fail("hang", hk::ctxbuf());
        printf("DONE 1 1\n");
        fflush(stdout);
        _exit(0);
      }
    }
  }).detach();
}

struct Result {
  ErrorCode s = ERROR, r = ERROR;
  bool init = false;
};

// runs the receiver with the sessions; act is called while it listens
static Result drive(hk::Rng& g, const Config& c, Place& p, vector<Session>& ss, bool abortIt, int waitMs,
                    std::function<ErrorCode(const WdtTransferRequest&)> legit = nullptr) {
  Result res;
  WdtOptions o;
  setup(g, c, o);
  WdtTransferRequest q(0, c.ports, p.dst);
  q.transferId = c.id;
  q.hostName = "127.0.0.1";
  q.protocolVersion = c.ver;
  Receiver recv(q);
  recv.setWdtOptions(o);
  recv.setRecoveryId("rec");
  WdtTransferRequest req = recv.init();
  if (req.errorCode != OK) {
    hk::count("init_failed");
    return res;
  }
  res.init = true;
  if (recv.transferAsync() != OK) {
    hk::fail("start", c.str());
    return res;
  }
  gDeadline = ms() + 40000;
  vector<std::thread> th;
  for (auto& s : ss) {
    uint64_t seed = g.next();
    th.emplace_back([&s, &req, seed] { runSession(s, req, seed); });
  }
  if (legit) res.s = legit(req);
  for (auto& t : th) t.join();
  if (abortIt) {
    usleep(waitMs * 1000);
    recv.abort(ABORTED_BY_APPLICATION);
    gDeadline = ms() + 15000;
  }
  auto rep = recv.finish();
  gDeadline = 0;
  res.r = rep->getSummary().getErrorCode();
  return res;
}

static void cuts(hk::Rng& g, Session& s) {
  int k = g.p(50) ? 0 : g.in(1, 6);
  std::set<int> at;
  for (int i = 0; i < k; ++i) at.insert(g.u(s.bytes.size() + 1));
  if (g.p(10)) for (int i = 1; i < 60; ++i) at.insert(i);
  s.cuts.assign(at.begin(), at.end());
  s.gapMs = g.p(50) ? g.in(0, 3) : 0;
  s.startMs = g.p(60) ? 0 : g.in(0, 60);
  s.end = g.u(5);
}

static void damage(hk::Rng& g, string& b) {
  if (b.empty()) return;
  int n = g.in(1, 4);
  for (int i = 0; i < n; ++i) {
    size_t at = g.u(std::min<size_t>(b.size(), g.p(60) ? 120 : b.size()));
    switch (g.u(5)) {
      case 0: b[at] ^= 1 << g.u(8); break;
      case 1: b[at] = g.next(); break;
      case 2: b.erase(at, g.in(1, 20)); break;
      case 3: b.insert(at, g.bytes(g.in(1, 20))); break;
      case 4: b.insert(at, b.substr(g.u(b.size()), g.u(300))); break;
    }
    if (b.empty()) return;
  }
}

// an arbitrary run of messages
static Session wild(hk::Rng& g, const Config& c, const Place& p, bool authorized) {
  Session s;
  s.port = g.u(c.ports);
  s.key = authorized ? 1 : 0;
  string badId = g.p(30) ? "" : g.p(50) ? c.id.substr(0, c.id.size() - 1) : g.p(50) ? c.id + "zz" : "other";
  if (!authorized && c.enc != ENC_NONE) {
    s.key = g.u(3) == 0 ? 0 : g.in(2, 3);
  }
  // with another key the id does not help (without any it does: the receiver
  // lets peers that do not encrypt in, the id is all they need)
  bool mayId = authorized || (c.enc != ENC_NONE && s.key >= 2);
  if (g.p(8)) {
    s.bytes = g.bytes(g.p(50) ? g.u(300) : g.u(20000));
    s.what = hk::fmt("RANDOM(%zu)", s.bytes.size());
    cuts(g, s);
    return s;
  }
  bool crc = g.p(50);
  int n = g.in(1, 12);
  int64_t blocks = 0, total = 0;
  for (int i = 0; i < n; ++i) {
    int k = i == 0 && g.p(90) ? 0 : g.u(100);
    Msg m;
    if (k < 10) {
      bool sane = g.p(80);
      if (!sane) s.patient = true;
      m = settings(g, g.p(90) ? c.ver : g.in(0, 40), mayId && g.p(92) ? c.id : badId, sane, c.resume && g.p(50), crc);
    } else if (k < 75) {
      string data = g.bytes(g.p(70) ? g.u(600) : g.u(30000));
      int64_t len = g.p(90) ? data.size() : num(g, data.size());
      int64_t off = g.p(80) ? 0 : num(g, g.u(5000));
      // (no file of terabytes)
      int64_t size = g.p(80) ? plus(len, off) : num(g, len);
      if (size > (1 << 22)) size = g.p(50) ? 1 << 22 : plus(len, off) > (1 << 22) ? 100 : len + off;
      if (off > (1 << 22) && g.p(90)) off = 1 << 22;
      FileAllocationStatus st = (FileAllocationStatus)(g.p(60) ? 0 : g.p(70) ? g.u(5) : g.in(0, 300));
      if (st == TO_BE_DELETED && g.p(80)) {
        data = "";
        len = size = off = 0;
      }
      m = file(g, c.ver, name(g, p), g.p(80) ? i + 1 : num(g, 1), data, len, off, size, st, g.p(70) ? 1 : num(g, 1), crc, g.p(90));
      if (g.p(4)) {  // the length of the header is not what it says
        int16_t h = g.p(50) ? g.u(32768) : g.p(50) ? 8192 + g.in(-3, 3) : g.next();
        memcpy(&m.bytes[2], &h, 2);
        m.what += hk::fmt("h%d", h);
        s.patient = true;
      }
      blocks++;
      total = plus(total, len);
    } else if (k < 82) {
      m = sizeMsg(num(g, total));
    } else if (k < 92) {
      m = doneMsg(c.ver, num(g, blocks), num(g, total), g.p(80) ? 0 : g.in(0, 60));
    } else {
      static const char cm[] = {0x57, 0x45, 0x41, 0x43, 0x61, 0x46, 0x01, 0x65, 0x48, 0x00, 0x7f};
      m.bytes = string(1, cm[g.u(sizeof cm)]) + g.bytes(g.u(280));
      m.what = hk::fmt("CMD(%02x)", (unsigned char)m.bytes[0]);
    }
    if (g.p(7)) {
      damage(g, m.bytes);
      s.patient = true;
      m.what += "*";
    }
    s.bytes += m.bytes;
    s.what += m.what + " ";
  }
  if (g.p(40)) {
    Msg m = doneMsg(c.ver, blocks, total);
    s.bytes += m.bytes;
    s.what += m.what;
  } else if (g.p(60)) {
    s.bytes += string(256, 0);
  }
  if (g.p(15)) s.bytes.resize(g.u(s.bytes.size() + 1));
  for (size_t at = s.bytes.find(c.id); at != string::npos; at = s.bytes.find(c.id, at + 1)) {
    s.right |= s.bytes.compare(at + c.id.size(), 2, "zz") != 0;
  }
  cuts(g, s);
  return s;
}

static string describe(const vector<Session>& ss) {
  string r;
  for (auto& s : ss) r += hk::fmt("[port %d key %d end %d %zu bytes: %s] ", s.port, s.key, s.end, s.bytes.size(), hk::clean(s.what.substr(0, 300)).c_str());
  return r;
}

static void prefill(hk::Rng& g, Place& p) {
  mkdir((p.dst + "/d0").c_str(), 0755);
  mkdir((p.dst + "/s1").c_str(), 0755);
  put(p.dst + "/d1", g.bytes(100));
  put(p.dst + "/d0/s0", g.bytes(300));
  put(p.dst + "/s1/s1", g.bytes(10));
}

// anything from anybody
static void wildCase(uint64_t seed, bool authorized) {
  hk::Rng g(seed);
  Config c = config(g);
  Place p(g);
  if (g.p(60)) prefill(g, p);
  p.snap();
  Tree had = tree(p.dst);
  vector<Session> ss;
  int n = g.in(1, 5);
  for (int i = 0; i < n; ++i) ss.push_back(wild(g, c, p, authorized && (i == 0 || g.p(60))));
  string what = hk::fmt("seed=%lu %s ", (unsigned long)seed, c.str().c_str()) + describe(ss);
  HK_CTX("%s", what.c_str());
  // (a receiver waits as long as the peer with the right id asks for)
  bool patient = g.p(70);
  for (auto& s : ss) patient |= s.patient;
  Result r = drive(g, c, p, ss, patient, g.in(0, 250));
  if (!r.init) return;
  hk::eval(hk::h64(what));
  hk::count(string(authorized ? "authorized_" : "unauthorized_") + errorCodeToStr(r.r));
  p.check(authorized ? "wild" : "unauthorized", what);
  if (!authorized) {
    bool right = false;
    for (auto& s : ss) right |= s.right && (c.enc == ENC_NONE || s.key <= 1);
    if (right) {  // damage made the id right again
      hk::count("unauthorized_no_more");
      return;
    }
    Tree now = tree(p.dst);
    now.erase(".wdt.log");
    string d = diffOf(had, now);
    if (!d.empty()) hk::fail("unauthorized-peer-wrote", d + " after " + what);
    if (r.r == OK) hk::fail("success-without-sender", what);
  }
  static int shown;
  if (shown++ < 2) hk::sample(what + " -> " + errorCodeToStr(r.r));
}

// well formed transfers of arbitrary names
static void nameCase(uint64_t seed) {
  hk::Rng g(seed);
  Config c = config(g);
  c.skip = false;
  c.ports = g.in(1, 4);
  Place p(g);
  p.snap();
  // several files whose names do not get into each other's way, maybe a bad one
  vector<vector<FileMsg>> per(c.ports);
  bool crc = g.p(50);
  int n = g.in(1, 10);
  std::map<string, string> want;
  int64_t blocks = 0, total = 0;
  bool bad = false, unstorable = false;
  std::set<string> firsts;
  int64_t seq = 1;
  string names;
  for (int i = 0; i < n; ++i) {
    string nm;
    if (g.p(45)) {
      nm = name(g, p);
      // (one odd name in ten is that of the log)
      if (g.p(10)) nm = string(g.p(50) ? "" : g.p(50) ? "./" : ".//./") + (g.p(70) ? ".wdt.log" : ".wdt.log.bug");
    } else {
      static const char* parts[] = {"sh", "ar", "ed", ".h", "..d", "e.."};
      int k = g.in(0, 5);
      for (int j = 0; j < k; ++j) nm += string(parts[g.u(6)]) + (g.p(8) ? "//" : g.p(8) ? "/./" : "/");
      nm += "f" + std::to_string(i);
    }
    // names that are a prefix of one another would be both file and directory
    string bare = nm;
    while (bare.compare(0, 2, "./") == 0) bare.erase(0, 2);
    string bare2 = bare;
    while (!bare2.empty() && (bare2[0] == '/' || bare2.compare(0, 2, "./") == 0)) bare2.erase(0, 1);
    string first = bare2.substr(0, bare2.find('/'));
    bool ok = acceptable(nm) && !(c.resume && (bare2 == ".wdt.log" || bare2 == ".wdt.log.bug"));
    if (ok && nm.compare(0, 2, "sh") && nm.compare(0, 2, "ar") && nm.compare(0, 2, "ed") && nm.compare(0, 2, ".h") && nm.compare(0, 3, "..d") &&
        nm.compare(0, 3, "e..") && !firsts.insert(first).second)
      continue;
    if (want.count(nm)) continue;
    if (bad && !ok) continue;
    string data = g.bytes(g.p(80) ? g.u(2000) : g.u(60000));
    if (nm.size() > 4000 || seq > 100) continue;
    names += "'" + hk::clean(nm.substr(0, 40)) + (nm.size() > 40 ? ".." : "") + "' ";
    bool st = ok && storable(nm, p.dst);
    if (!ok) bad = true;
    if (ok && !st) unstorable = true;
    // in blocks over any ports when it is good
    int64_t at = 0;
    if (ok && st) want[nm] = data;
    do {
      int64_t len = g.p(50) ? (int64_t)data.size() - at : std::min<int64_t>(data.size() - at, 1 + g.u(data.size() + 1));
      per[g.u(c.ports)].push_back(file(g, c.ver, nm, seq, data.substr(at, len), len, at, data.size(), NOT_EXISTS, 0, crc && c.ver >= 12, true));
      at += len;
      blocks++;
      total += len;
    } while (at < (int64_t)data.size());
    seq++;
  }
  if (!seq || blocks == 0) return;
  vector<Session> ss(c.ports);
  for (int i = 0; i < c.ports; ++i) {
    Session& s = ss[i];
    s.port = i;
    s.key = 1;
    s.orderly = true;
    Msg m = settings(g, c.ver, c.id, true, false, crc);
    s.bytes = m.bytes;
    s.what = m.what;
    for (auto& f : per[i]) {
      s.bytes += f.bytes;
      s.what += " " + f.what;
    }
    if (c.ver >= 11) s.bytes += sizeMsg(total).bytes;
    s.bytes += doneMsg(c.ver, blocks, total).bytes;
    cuts(g, s);
    s.gapMs = std::min(s.gapMs, 1);
  }
  string what = hk::fmt("seed=%lu %s names %s", (unsigned long)seed, c.str().c_str(), names.c_str());
  HK_CTX("%s", what.c_str());
  Result r = drive(g, c, p, ss, false, 0);
  if (!r.init) return;
  hk::eval(hk::h64(what));
  p.check("names", what);
  hk::count(string("names_") + (bad ? "bad_" : unstorable ? "unstorable_" : "good_") + errorCodeToStr(r.r));
  if (bad || unstorable) {
    if (r.r == OK) hk::fail(bad ? "bad-name-accepted" : "unstorable-name-accepted", what);
  } else if (r.r != OK) {
    hk::fail(string("good-names-refused:") + errorCodeToStr(r.r), what);
  }
  Tree now = tree(p.dst);
  if (c.resume) now.erase(".wdt.log");
  // everything there has one of the names
  std::map<string, string> canon;
  auto norm = [](const string& nm, vector<string>* dirs) {
    string r;
    size_t i = 0;
    while (i <= nm.size()) {
      size_t e = nm.find('/', i);
      if (e == string::npos) e = nm.size();
      string part = nm.substr(i, e - i);
      if (!part.empty() && part != ".") {
        if (!r.empty()) {
          if (dirs) dirs->push_back(r + "/");
          r += "/";
        }
        r += part;
      }
      i = e + 1;
    }
    return r;
  };
  vector<string> dirs;
  for (auto& w : want) canon[norm(w.first, &dirs)] = w.second;
  std::set<string> okDirs(dirs.begin(), dirs.end());
  if (!unstorable && !bad) {
    for (auto& w : canon) {
      auto i = now.find(w.first);
      if (i == now.end()) hk::fail("file-missing", w.first.substr(0, 80) + " after " + what);
      else if (i->second != w.second) hk::fail("file-content", w.first.substr(0, 80) + " after " + what);
    }
    for (auto& x : now) {
      if (x.first.back() == '/' ? !okDirs.count(x.first) : !canon.count(x.first)) hk::fail("unexpected-entry", x.first.substr(0, 80) + " after " + what);
    }
  }
  static int shown;
  if (shown++ < 2) hk::sample(what + " -> " + errorCodeToStr(r.r));
}

// a sender of the transfer while others disturb other ports
static void legitCase(uint64_t seed) {
  for (int attempt = 0; attempt < 4; ++attempt) {
    hk::Rng g(seed);
    Config c = config(g);
    c.ver = 32;
    c.enc = (EncryptionType)g.u(3);
    c.ports = g.in(2, 4);
    c.skip = false;
    Place p(g);
    string src = p.root + "/src";
    mkdir(src.c_str(), 0755);
    mkdir((src + "/sub").c_str(), 0755);
    int n = g.in(1, 12);
    for (int i = 0; i < n; ++i) put(src + (i == 0 || g.p(50) ? "/sub/f" : "/f") + std::to_string(i), g.bytes(g.p(70) ? g.u(3000) : g.u(200000)));
    p.snap();
    vector<Session> ss;
    int k = g.in(1, 6), clean = g.u(c.ports);
    for (int i = 0; i < k; ++i) {
      ss.push_back(wild(g, c, p, false));
      ss.back().port = g.u(c.ports);
      if (ss.back().port == clean) ss.back().port = (clean + 1) % c.ports;
    }
    int delay = g.p(50) ? 0 : g.in(1, 60);
    string what = hk::fmt("seed=%lu %s sender after %d ms, clean port %d ", (unsigned long)seed, c.str().c_str(), delay, clean) + describe(ss);
    HK_CTX("%s", what.c_str());
    auto legit = [&](const WdtTransferRequest& req) {
      usleep(delay * 1000);
      WdtTransferRequest q(req);
      q.directory = src;
      WdtOptions o;
      o.read_timeout_millis = o.write_timeout_millis = 1000;
      o.max_retries = 3;
      o.progress_report_interval_millis = 0;
      o.enable_download_resumption = c.resume;
      o.block_size_mbytes = c.treeMode ? -1 : 0.02;
      Sender s(q);
      s.setWdtOptions(o);
      auto rep = s.transfer();
      return rep->getSummary().getErrorCode();
    };
    Result r = drive(g, c, p, ss, false, 0, legit);
    if (!r.init) return;
    p.check("legit", what);
    Tree now = tree(p.dst), sent = tree(src);
    now.erase(".wdt.log");
    string d = diffOf(sent, now);
    if (attempt == 0) {
      hk::eval(hk::h64(what));
      hk::count(hk::fmt("legit_%s_%s", errorCodeToStr(r.s).c_str(), errorCodeToStr(r.r).c_str()));
    }
    if ((r.s == OK || r.r == OK) && !d.empty()) hk::fail("legit-ok-but-wrong", d + " after " + what);
    for (auto& x : now) {
      if (x.first.back() != '/' && !sent.count(x.first)) hk::fail("legit-foreign-file", x.first.substr(0, 80) + " after " + what);
    }
    if (r.s == OK && r.r == OK) return;
    if (attempt == 3) hk::fail(hk::fmt("legit-disturbed:%s/%s", errorCodeToStr(r.s).c_str(), errorCodeToStr(r.r).c_str()), what);
  }
}

int main(int argc, char** argv) {
  hk::init();
  gBase = hk::sarg(argc, argv, "dir");
  if (gBase.empty()) return 3;
  gOutside = hk::arg(argc, argv, "outside", 1);
  // what escapes must not reach anything
  if (getuid() == 0 && (setgid(65534) || setuid(65534))) return 3;
  if (access(gBase.c_str(), W_OK)) return 3;
  watchdog();
  uint64_t seed = hk::arg(argc, argv, "seed", 1);
  long n = hk::arg(argc, argv, "n", 10);
  long only = hk::arg(argc, argv, "only", 0);
  string mode = hk::sarg(argc, argv, "mode", "wild");
  for (long i = 0; i < n; ++i) {
    uint64_t s = only ? only : seed * 100000 + i;
    if (mode == "wild") wildCase(s, true);
    if (mode == "unauth") wildCase(s, false);
    if (mode == "names") nameCase(s);
    if (mode == "legit") legitCase(s);
    if (only) break;
  }
  return hk::done();
}
