// Directory discovery, block queue, per-thread history and byte sources of
// the sender, driven directly and compared with independent references.
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>
#include "hk.h"
#include "wdt/AbortChecker.h"
#include "wdt/Protocol.h"
#include "wdt/util/DirectorySourceQueue.h"
#include "wdt/util/ThreadTransferHistory.h"
using namespace facebook::wdt;
using std::map;
using std::set;
using std::string;
using std::vector;

// ------------------------------------------------ failing calls by path
static std::mutex gFm;
static map<string, int> gFailStat, gFailOpen, gFailDir;  // path -> errno
static set<string> gFired;
static std::atomic<bool> gArmed{false};
static int inject(map<string, int>& m, const char* path) {
  if (!gArmed.load(std::memory_order_acquire)) {
    return 0;
  }
  std::lock_guard<std::mutex> l(gFm);
  string p(path);
  while (p.size() > 1 && p.back() == '/') {
    p.pop_back();
  }
  auto it = m.find(p);
  if (it == m.end()) {
    return 0;
  }
  gFired.insert(p);
  return it->second;
}
extern "C" {
int lstat(const char* p, struct stat* st) noexcept {
  static auto f = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "lstat");
  if (int e = inject(gFailStat, p)) {
    errno = e;
    return -1;
  }
  return f(p, st);
}
int open(const char* p, int fl, ...) {
  static auto f = (int (*)(const char*, int, mode_t))dlsym(RTLD_NEXT, "open");
  va_list a;
  va_start(a, fl);
  mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0;
  va_end(a);
  if (int e = inject(gFailOpen, p)) {
    errno = e;
    return -1;
  }
  return f(p, fl, m);
}
DIR* opendir(const char* p) {
  static auto f = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
  if (int e = inject(gFailDir, p)) {
    errno = e;
    return nullptr;
  }
  return f(p);
}
}

struct NoAbort : IAbortChecker {
  std::atomic<bool> a{false};
  bool shouldAbort() const override {
    return a;
  }
};
static NoAbort gNoAbort;
static string gRoot;

static void rmTree(const string& d) {
  if (d.compare(0, gRoot.size(), gRoot) != 0 || gRoot.size() < 6) {
    abort();
  }
  DIR* dp = opendir(d.c_str());
  if (!dp) {
    return;
  }
  while (auto e = readdir(dp)) {
    string n = e->d_name;
    if (n == "." || n == "..") {
      continue;
    }
    string p = d + "/" + n;
    struct stat st;
    if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) {
      rmTree(p);
    } else {
      unlink(p.c_str());
    }
  }
  closedir(dp);
  rmdir(d.c_str());
}
static void mkFile(const string& p, int64_t size, const string* content = nullptr) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) {
    perror(p.c_str());
    _exit(3);
  }
  if (content) {
    for (size_t at = 0; at < content->size();) {
      ssize_t k = ::write(fd, content->data() + at, content->size() - at);
      if (k <= 0) {
        _exit(3);
      }
      at += k;
    }
  } else if (ftruncate(fd, size)) {
    perror("truncate");
    _exit(3);
  }
  close(fd);
}

struct Blk {
  int64_t off, size;
  bool operator<(const Blk& o) const {
    return off != o.off ? off < o.off : size < o.size;
  }
  bool operator==(const Blk& o) const {
    return off == o.off && size == o.size;
  }
};
struct Ref {
  int64_t size = 0;
  bool prev = false;
  int64_t prevSize = 0, prevSeq = -1;
  vector<Interval> chunks;
  bool onDisk = true;
};

// the blocks which have to be offered for one file
static vector<Blk> refBlocks(const Ref& r, int64_t bs) {
  vector<Blk> out;
  vector<std::pair<int64_t, int64_t>> todo;
  if (!r.prev || r.prevSize > r.size) {
    todo.push_back({0, r.size});
  } else {
    int64_t at = 0;
    for (auto& c : r.chunks) {
      if (c.start_ > at) {
        todo.push_back({at, c.start_});
      }
      at = c.end_;
    }
    if (at < r.size) {
      todo.push_back({at, r.size});
    }
  }
  for (auto& t : todo) {
    if (t.first == t.second) {
      out.push_back({t.first, 0});
    }
    for (int64_t o = t.first; o < t.second;) {
      int64_t k = bs > 0 ? std::min(bs, t.second - o) : t.second - o;
      out.push_back({o, k});
      o += k;
    }
  }
  return out;
}

struct Got {
  string name;
  int64_t off, size, seq, prevSeq, fsize;
  int status;
  int retries;
};
static Got of(ByteSource& s) {
  auto& m = s.getMetaData();
  return {m.relPath, s.getOffset(), s.getSize(), m.seqId, m.prevSeqId, m.size, (int)m.allocationStatus,
          (int)s.getTransferStats().getFailedAttempts()};
}
// documented order: deletions first, then fewer retries, larger, lower
// offset, name
static bool before(const Got& a, const Got& b) {
  bool da = a.status == TO_BE_DELETED, db = b.status == TO_BE_DELETED;
  if (da != db) {
    return da;
  }
  if (a.retries != b.retries) {
    return a.retries < b.retries;
  }
  if (a.size != b.size) {
    return a.size > b.size;
  }
  if (a.off != b.off) {
    return a.off < b.off;
  }
  return a.name < b.name;
}

static void blocksCase(hk::Rng& g, int threads) {
  string root = gRoot + "/q";
  rmTree(root);
  mkdir(root.c_str(), 0755);
  WdtOptions opt;
  double mb;
  switch (g.in(0, 5)) {
    case 0: mb = -1; break;
    case 1: mb = 0; break;
    case 2: mb = g.in(1, 3); break;
    default: mb = g.in(1, 4000) / 1048576.0; break;
  }
  int64_t bs = (int64_t)(mb * 1024 * 1024);
  int nf = threads > 1 ? g.in(1, 25) : g.in(0, 12);
  map<string, Ref> ref;
  bool listed = g.p(40);
  vector<WdtFileInfo> list;
  vector<FileChunksInfo> prev;
  bool usePrev = g.p(50), del = usePrev && g.p(40);
  int64_t seq = g.in(0, 50), maxSeq = -1;
  int64_t unit = bs > 0 ? bs : 1000;
  int64_t top = std::min<int64_t>(unit * 20, 5000000);
  for (int i = 0; i < nf; ++i) {
    string n = hk::fmt("f%d", (int)g.in(0, 1000));
    if (ref.count(n)) {
      continue;
    }
    Ref r;
    switch (g.in(0, 5)) {
      case 0: r.size = 0; break;
      case 1: r.size = unit * g.in(1, 5) + g.in(-1, 1); break;
      case 2: r.size = g.in(0, 3); break;
      default: r.size = g.in(0, top); break;
    }
    if (r.size < 0) {
      r.size = 0;
    }
    ref[n] = r;
  }
  int extra = 0;
  if (usePrev) {
    for (auto& it : ref) {
      Ref& r = it.second;
      if (g.p(30)) {
        continue;
      }
      r.prev = true;
      r.prevSize = g.p(60) ? r.size : g.p(50) ? g.in(0, r.size) : r.size + g.in(1, 1000);
      r.prevSeq = seq++;
      if (g.p(20)) {
        seq += g.in(0, 5);
      }
      string fname = it.first;
      FileChunksInfo f(r.prevSeq, fname, r.prevSize);
      int64_t lim = std::min(r.size, r.prevSize);
      int64_t at = g.p(50) ? 0 : g.in(0, std::max<int64_t>(1, lim / 3));
      int k = g.in(0, 4);
      for (int c = 0; c < k && at < lim; ++c) {
        int64_t e = g.p(25) ? lim : g.in(at + 1, lim);
        r.chunks.push_back(Interval(at, e));
        f.addChunk(Interval(at, e));
        at = e + g.in(1, std::max<int64_t>(1, lim / 4));
      }
      maxSeq = std::max(maxSeq, r.prevSeq);
      prev.push_back(std::move(f));
    }
    for (int i = g.in(0, 3); i > 0; --i) {
      string fname = hk::fmt("gone%d", i);
      FileChunksInfo f(seq, fname, g.in(0, 100));
      Ref r;
      r.prev = true;
      r.prevSeq = seq++;
      r.onDisk = false;
      maxSeq = std::max(maxSeq, r.prevSeq);
      ref[hk::fmt("gone%d", i)] = r;
      prev.push_back(std::move(f));
      ++extra;
    }
    std::random_shuffle(prev.begin(), prev.end(), [&](int n) { return (int)(g.next() % n); });
  }
  string what = hk::fmt("threads %d block %.3f files %zu listed %d prev %zu delete %d", threads, mb, ref.size(), listed,
                        prev.size(), del);
  HK_CTX("blocks %s", what.c_str());
  uint64_t h = hk::h64(what);
  for (auto& it : ref) {
    if (it.second.onDisk) {
      mkFile(root + "/" + it.first, it.second.size);
      h = h * 31 + it.second.size;
      WdtFileInfo fi(it.first, g.p(50) ? it.second.size : -1, false);
      list.push_back(fi);
    }
  }
  hk::eval(h);
  // expectation
  map<string, vector<Blk>> want;
  size_t total = 0, entries = 0;
  int64_t bytes = 0, prevBytes = 0;
  for (auto& it : ref) {
    if (!it.second.onDisk) {
      if (del) {
        want[it.first] = {{0, 0}};
        ++total;
        ++entries;
      }
      continue;
    }
    auto b = refBlocks(it.second, bs);
    if (it.second.prev && it.second.prevSize <= it.second.size) {
      for (auto& c : it.second.chunks) {
        prevBytes += c.size();
      }
    }
    if (!b.empty()) {
      want[it.first] = b;
      total += b.size();
      ++entries;
      for (auto& x : b) {
        bytes += x.size;
      }
    }
  }
  DirectorySourceQueue q(opt, root, &gNoAbort);
  q.setBlockSizeMbytes(mb);
  q.setNumClientThreads(threads);
  if (g.p(20)) {
    q.setOpenFilesDuringDiscovery(g.p(50) ? -1 : g.in(1, 5));
  }
  if (listed) {
    q.setFileInfo(list);
  }
  if (del) {
    q.enableFileDeletion();
  }
  bool prevFirst = g.p(30);
  std::thread dt;
  bool async = threads > 1 && g.p(70);
  if (usePrev && prevFirst) {
    q.setPreviouslyReceivedChunks(prev);
  }
  if (async) {
    dt = q.buildQueueAsynchronously();
    if (usePrev && !prevFirst) {
      q.setPreviouslyReceivedChunks(prev);
    }
  } else {
    bool ok = q.buildQueueSynchronously();
    if (!ok) {
      hk::fail("discovery-failed", what);
    }
    if (q.buildQueueSynchronously()) {
      hk::fail("built-twice", what);
    }
    if (usePrev && !prevFirst) {
      q.setPreviouslyReceivedChunks(prev);
    }
    if (q.getCount() != (int64_t)entries || q.getTotalSize() != bytes || q.getNumBlocksAndStatus().first != (int64_t)total ||
        q.getNumBlocksAndStatus().second != OK || !q.fileDiscoveryFinished()) {
      hk::fail("queue-totals", what + hk::fmt(" count %ld/%zu bytes %ld/%ld blocks %ld/%zu", (long)q.getCount(), entries,
                                              (long)q.getTotalSize(), (long)bytes,
                                              (long)q.getNumBlocksAndStatus().first, total));
    }
    if (usePrev && q.getPreviouslySentBytes() != prevBytes) {
      hk::fail("previously-sent-bytes", what + hk::fmt(" %ld for %ld", (long)q.getPreviouslySentBytes(), (long)prevBytes));
    }
    if (q.finished() != (total == 0)) {
      hk::fail("finished-early", what);
    }
  }
  std::mutex m;
  map<string, map<Blk, int>> final;  // consumed for good
  vector<Got> seenAll;
  map<string, map<Blk, int>> out;  // currently held
  std::atomic<int> budget{(int)g.in(0, 60)};
  std::atomic<long> handed{0}, returned{0};
  int giveBack = g.in(0, 60);
  auto worker = [&](int id) {
    hk::Rng r(h + id * 7919);
    ThreadCtx ctx(opt, false, id);
    vector<std::unique_ptr<ByteSource>> mine;
    Got last{};
    bool haveLast = false;
    auto finish = [&](std::unique_ptr<ByteSource> s) {
      Got x = of(*s);
      s->close();
      std::lock_guard<std::mutex> l(m);
      out[x.name].erase({x.off, x.size});
      final[x.name][{x.off, x.size}]++;
    };
    while (true) {
      ErrorCode st = ERROR;
      auto s = q.getNextSource(&ctx, st);
      if (st != OK) {
        hk::fail("queue-status", what + " " + errorCodeToStr(st));
      }
      if (!s) {
        if (mine.empty()) {
          if (!q.finished() && threads == 1) {
            hk::fail("not-finished-at-end", what);
          }
          break;
        }
        // hand back or consume what is still held, then try again
        if (budget.fetch_sub(1) > 0 && r.p(giveBack)) {
          for (auto& b : mine) {
            Got x = of(*b);
            std::lock_guard<std::mutex> l(m);
            out[x.name].erase({x.off, x.size});
          }
          returned += mine.size();
          for (auto& b : mine) {
            b->getTransferStats().incrFailedAttempts();
            b->close();
          }
          q.returnToQueue(mine);
          mine.clear();
          haveLast = false;
        } else {
          for (auto& b : mine) {
            finish(std::move(b));
          }
          mine.clear();
        }
        continue;
      }
      ++handed;
      Got x = of(*s);
      if (s->hasError() || s->finished() != (x.size == 0 && true)) {
        if (s->hasError()) {
          hk::fail("source-not-open", what + " " + x.name);
        }
      }
      {
        std::lock_guard<std::mutex> l(m);
        seenAll.push_back(x);
        if (out[x.name][{x.off, x.size}]++) {
          hk::fail("block-handed-out-twice", what + hk::fmt(" %s %ld+%ld", x.name.c_str(), (long)x.off, (long)x.size));
        }
      }
      if (threads == 1 && !async) {
        if (haveLast && before(x, last)) {
          hk::fail("queue-order", what + hk::fmt(" %s %ld+%ld (retries %d, status %d) after %s %ld+%ld (%d, %d)", x.name.c_str(),
                                                 (long)x.off, (long)x.size, x.retries, x.status, last.name.c_str(),
                                                 (long)last.off, (long)last.size, last.retries, last.status));
        }
        last = x;
        haveLast = true;
      }
      if (budget.fetch_sub(1) > 0 && r.p(giveBack)) {
        {
          std::lock_guard<std::mutex> l(m);
          out[x.name].erase({x.off, x.size});
        }
        s->getTransferStats().incrFailedAttempts();
        ++returned;
        haveLast = false;
        s->close();
        q.returnToQueue(s);
      } else if (r.p(30)) {
        mine.push_back(std::move(s));
      } else {
        finish(std::move(s));
      }
    }
  };
  vector<std::thread> th;
  for (int i = 1; i < threads; ++i) {
    th.emplace_back(worker, i);
  }
  worker(0);
  for (auto& t : th) {
    t.join();
  }
  if (async) {
    dt.join();
    if (q.getCount() != (int64_t)entries || q.getTotalSize() != bytes || q.getNumBlocksAndStatus().first != (int64_t)total) {
      hk::fail("queue-totals", what + hk::fmt(" async count %ld/%zu bytes %ld/%ld blocks %ld/%zu", (long)q.getCount(), entries,
                                              (long)q.getTotalSize(), (long)bytes,
                                              (long)q.getNumBlocksAndStatus().first, total));
    }
  }
  hk::count("blocks_handed_out", handed);
  hk::count("blocks_returned", returned);
  if (!q.finished()) {
    hk::fail("not-finished-at-end", what);
  }
  if (!q.getFailedSourceStats().empty() || !q.getFailedDirectories().empty()) {
    hk::fail("unexpected-failures", what);
  }
  if (handed != (long)total + returned) {
    hk::fail("handed-out-count", what + hk::fmt(" %ld for %zu blocks and %ld returns", handed.load(), total, returned.load()));
  }
  for (auto& it : want) {
    auto& got = final[it.first];
    for (auto& b : it.second) {
      auto f = got.find(b);
      if (f == got.end()) {
        hk::fail("block-missing", what + hk::fmt(" %s %ld+%ld", it.first.c_str(), (long)b.off, (long)b.size));
        break;
      }
      if (f->second != 1) {
        hk::fail("block-consumed-twice", what);
      }
    }
    if (got.size() != it.second.size()) {
      hk::fail("blocks-differ", what + hk::fmt(" %s: %zu blocks for %zu", it.first.c_str(), got.size(), it.second.size()));
    }
  }
  for (auto& it : final) {
    if (!want.count(it.first)) {
      hk::fail("unwanted-file", what + " " + it.first);
    }
  }
  map<int64_t, string> bySeq;
  for (auto& x : seenAll) {
    auto& r = ref[x.name];
    int st = !r.onDisk ? TO_BE_DELETED
             : !r.prev ? NOT_EXISTS
             : r.prevSize > r.size ? EXISTS_TOO_LARGE
             : r.prevSize < r.size ? EXISTS_TOO_SMALL
                                   : EXISTS_CORRECT_SIZE;
    bool keepSeq = r.prev && st != EXISTS_TOO_LARGE;
    if (x.status != st || (keepSeq && x.seq != r.prevSeq) || (st == EXISTS_TOO_LARGE && x.prevSeq != r.prevSeq)) {
      hk::fail("allocation-status", what + hk::fmt(" %s status %d for %d seq %ld prev %ld for %ld", x.name.c_str(), x.status, st,
                                                   (long)x.seq, (long)x.prevSeq, (long)r.prevSeq));
    }
    if (!keepSeq && r.onDisk && x.seq <= maxSeq && usePrev) {
      hk::fail("sequence-id-reused", what + hk::fmt(" %s %ld", x.name.c_str(), (long)x.seq));
    }
    if (r.onDisk && x.fsize != r.size) {
      hk::fail("file-size", what);
    }
    auto ins = bySeq.emplace(x.seq, x.name);
    if (ins.first->second != x.name) {
      hk::fail("sequence-id-shared", what + " " + x.name + " " + ins.first->second);
    }
  }
}

// -------------------------------------------------------------- discovery
struct Pat {
  const char* re;
  std::function<bool(const string&)> ok;
};
static bool ends(const string& s, const string& e) {
  return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}
static bool starts(const string& s, const string& e) {
  return s.compare(0, e.size(), e) == 0;
}
static bool nonl(const string& s) {
  return s.find('\n') == string::npos && s.find('\r') == string::npos;
}
static const vector<Pat>& filePats() {
  static vector<Pat> v = {
      {"", nullptr},
      {".*", [](const string& s) { return nonl(s); }},
      {".*\\.txt", [](const string& s) { return nonl(s) && ends(s, ".txt"); }},
      {"a.*", [](const string& s) { return nonl(s) && starts(s, "a"); }},
      {"(a|b)/.*", [](const string& s) { return nonl(s) && (starts(s, "a/") || starts(s, "b/")); }},
      {"[^/]*", [](const string& s) { return s.find('/') == string::npos; }},
      {"a", [](const string& s) { return s == "a"; }},
      {".*x.*", [](const string& s) { return nonl(s) && s.find('x') != string::npos; }},
      {"a\\.txt|b/a", [](const string& s) { return s == "a.txt" || s == "b/a"; }},
  };
  return v;
}
static const vector<Pat>& dirPats() {
  static vector<Pat> v = {
      {"", nullptr},
      {"a/", [](const string& s) { return s == "a/"; }},
      {".*b/", [](const string& s) { return nonl(s) && ends(s, "b/"); }},
      {"a", [](const string& s) { return s == "a"; }},  // never matches a directory
      {"(a|d)/.*", [](const string& s) { return nonl(s) && (starts(s, "a/") || starts(s, "d/")); }},
  };
  return v;
}

struct Walk {
  string root;
  bool follow;
  const Pat *inc, *exc, *prune;
  map<string, int64_t> files;  // rel -> size
  map<string, string> target;  // rel -> canonical path
  set<string> failDirs, failFiles;  // injected, as rel paths
  set<string> needReal;  // real directories that must be visited (by real path)
  set<string> onPath;
  map<string, vector<string>> byReal;  // real directory -> ways to reach it
  bool sel(const string& s) const {
    if (exc->ok && exc->ok(s)) {
      return false;
    }
    return !inc->ok || inc->ok(s);
  }
};
// all ways to reach files (bounded by never entering the real directory
// which is already on the current path)
static void refWalk(Walk& w, const string& rel, int depth) {
  string full = w.root + "/" + rel;
  char* rp = realpath(full.c_str(), nullptr);
  string real = rp ? rp : "";
  free(rp);
  if (real.empty() || w.onPath.count(real) || depth > 40) {
    return;
  }
  w.byReal[real].push_back(rel);
  w.onPath.insert(real);
  vector<string> names;
  DIR* d = opendir(full.c_str());
  if (d) {
    while (auto e = readdir(d)) {
      string n = e->d_name;
      if (n != "." && n != "..") {
        names.push_back(n);
      }
    }
    closedir(d);
  }
  for (auto& n : names) {
    string r = rel + n;
    struct stat st;
    if (lstat((w.root + "/" + r).c_str(), &st)) {
      continue;
    }
    if (S_ISLNK(st.st_mode)) {
      if (!w.follow || stat((w.root + "/" + r).c_str(), &st)) {
        continue;
      }
    }
    if (S_ISREG(st.st_mode)) {
      if (w.sel(r)) {
        w.files[r] = st.st_size;
        char* fp = realpath((w.root + "/" + r).c_str(), nullptr);
        w.target[r] = fp ? fp : "";
        free(fp);
      }
    } else if (S_ISDIR(st.st_mode)) {
      if (!(w.prune->ok && w.prune->ok(r + "/"))) {
        refWalk(w, r + "/", depth + 1);
      }
    }
  }
  w.onPath.erase(real);
}

static void walkCase(hk::Rng& g) {
  string base = gRoot + "/w";
  rmTree(base);
  mkdir(base.c_str(), 0755);
  string root = base + "/root", ext = base + "/ext";
  mkdir(root.c_str(), 0755);
  mkdir(ext.c_str(), 0755);
  static const char* kNames[] = {"a", "b", "c", "d", "x", "a.txt", "b.txt", ".hidden", "..two", "...", "sp ace", "new\nline", "tab\t",
                                 "\xff\xfe", "\xc3\xa9", "-dash", "a*b", "back\\slash", "q'uote", "x.txt"};
  vector<string> dirs = {root, ext};
  vector<string> files;
  bool links = g.p(60);
  int nd = g.in(0, 8);
  for (int i = 0; i < nd; ++i) {
    string d = dirs[g.in(0, dirs.size() - 1)] + "/" + kNames[g.in(0, 19)];
    if (!mkdir(d.c_str(), 0755)) {
      dirs.push_back(d);
    }
  }
  if (g.p(10)) {
    string d = root;
    int depth = g.in(10, 30);
    for (int i = 0; i < depth; ++i) {
      d += "/" + string(1, 'k' + i % 3) + string(g.in(1, 60), 'z');
      mkdir(d.c_str(), 0755);
    }
    dirs.push_back(d);
  }
  int nf = g.in(0, 20);
  for (int i = 0; i < nf; ++i) {
    string p = dirs[g.in(0, dirs.size() - 1)] + "/" + (g.p(5) ? string(g.in(200, 255), 'n') : string(kNames[g.in(0, 19)]));
    struct stat st;
    if (!lstat(p.c_str(), &st)) {
      continue;
    }
    if (g.p(5)) {
      (void)!mkfifo(p.c_str(), 0644);
      continue;
    }
    mkFile(p, g.p(30) ? 0 : g.in(1, 5000));
    files.push_back(p);
  }
  if (links) {
    for (int i = g.in(1, 5); i > 0; --i) {
      string p = dirs[g.in(0, dirs.size() - 1)] + "/" + (g.p(50) ? string(hk::fmt("l%d", i)) : string(kNames[g.in(0, 19)]));
      string t;
      switch (g.in(0, 6)) {
        case 0: t = "nowhere"; break;
        case 1: t = ".."; break;
        case 2: t = "."; break;
        case 3: t = dirs[g.in(0, dirs.size() - 1)]; break;
        case 4: t = files.empty() ? "x" : files[g.in(0, files.size() - 1)]; break;
        case 5: t = p; break;
        default: t = ext; break;
      }
      (void)!symlink(t.c_str(), p.c_str());
    }
  }
  Walk w;
  w.root = root;
  w.follow = links ? g.p(65) : g.p(20);
  w.inc = &filePats()[g.p(60) ? 0 : g.in(1, filePats().size() - 1)];
  w.exc = &filePats()[g.p(60) ? 0 : g.in(1, filePats().size() - 1)];
  w.prune = &dirPats()[g.p(60) ? 0 : g.in(1, dirPats().size() - 1)];
  refWalk(w, "", 0);
  string what = hk::fmt("files %zu follow %d include '%s' exclude '%s' prune '%s'", w.files.size(), w.follow, w.inc->re, w.exc->re,
                        w.prune->re);
  HK_CTX("walk %s", what.c_str());
  uint64_t h = hk::h64(what);
  for (auto& f : w.files) {
    h = (h ^ hk::h64(f.first)) * 31 + f.second;
  }
  hk::eval(h);
  // injected failures
  {
    std::lock_guard<std::mutex> l(gFm);
    gFailStat.clear();
    gFailOpen.clear();
    gFailDir.clear();
    gFired.clear();
    if (g.p(40)) {
      static const int kErr[] = {EACCES, EIO, EMFILE, ENOMEM};
      for (int i = g.in(1, 2); i > 0; --i) {
        if (g.p(50) && !w.files.empty()) {
          auto it = w.files.begin();
          std::advance(it, g.in(0, w.files.size() - 1));
          (g.p(50) ? gFailStat : gFailOpen)[root + "/" + it->first] = kErr[g.in(0, 3)];
        } else {
          gFailDir[g.p(50) ? root : dirs[g.in(0, dirs.size() - 1)]] = kErr[g.in(0, 3)];
        }
      }
    }
  }
  WdtOptions opt;
  string rootArg = root + (g.p(50) ? "/" : "");
  bool viaLink = g.p(15);
  if (viaLink) {
    (void)!symlink("root", (base + "/rootlink").c_str());
    rootArg = base + "/rootlink";
  }
  DirectorySourceQueue q(opt, rootArg, &gNoAbort);
  if (!viaLink && g.p(30)) {
    q.setRootDir(root);
  }
  q.setBlockSizeMbytes(-1);
  q.setFollowSymlinks(w.follow);
  q.setIncludePattern(w.inc->re);
  q.setExcludePattern(w.exc->re);
  q.setPruneDirPattern(w.prune->re);
  if (g.p(20)) {
    q.setOpenFilesDuringDiscovery(g.p(50) ? -1 : 3);
  }
  gArmed = true;
  std::thread dt = q.buildQueueAsynchronously();
  if (g.p(50)) {
    dt.join();
  }
  ThreadCtx ctx(opt, false, 0);
  map<string, int64_t> got;
  ErrorCode st = OK;
  while (true) {
    auto s = q.getNextSource(&ctx, st);
    if (!s) {
      break;
    }
    Got x = of(*s);
    if (!got.emplace(x.name, x.fsize).second) {
      hk::fail("file-twice", what + " " + x.name);
    }
    if (x.off != 0 || x.size != x.fsize) {
      hk::fail("whole-file-block", what + " " + x.name);
    }
    s->close();
  }
  if (dt.joinable()) {
    dt.join();
  }
  gArmed = false;
  set<string> fired;
  {
    std::lock_guard<std::mutex> l(gFm);
    fired = gFired;
  }
  hk::count("files_discovered", got.size());
  hk::count("injected_failures", fired.size());
  set<string> failed;
  for (auto& s : q.getFailedSourceStats()) {
    failed.insert(s.getId());
  }
  set<string> failedDirs;
  for (auto d : q.getFailedDirectories()) {
    while (d.size() > 1 && d.back() == '/') {
      d.pop_back();
    }
    failedDirs.insert(d);
  }
  bool anyFail = !failed.empty() || !failedDirs.empty();
  if (anyFail != (st != OK) && !(st == OK && anyFail)) {
    hk::fail("failure-without-status", what);
  }
  if (fired.empty() && anyFail) {
    hk::fail("failure-reported-for-nothing", what + " " + (failed.empty() ? *failedDirs.begin() : *failed.begin()));
  }
  for (auto& p : fired) {
    bool isDir = gFailDir.count(p);
    if (!anyFail) {
      hk::fail("read-failure-dropped", what + " " + p);
    } else if (isDir && failedDirs.empty()) {
      hk::fail("directory-failure-dropped", what + " " + p);
    } else if (!isDir && p.compare(0, root.size() + 1, root + "/") == 0 && !failed.count(p.substr(root.size() + 1))) {
      hk::fail("file-failure-dropped", what + " " + p);
    }
  }
  for (auto& f : got) {
    // judged by itself: cycles give more ways to reach a file than listed
    bool ok = w.sel(f.first);
    struct stat ls;
    string part;
    for (size_t i = 0; i <= f.first.size() && ok; ++i) {
      if (i < f.first.size() && f.first[i] != '/') {
        continue;
      }
      part = f.first.substr(0, i);
      ok = lstat((root + "/" + part).c_str(), &ls) == 0 && (w.follow || !S_ISLNK(ls.st_mode));
      if (ok && i < f.first.size()) {
        ok = !(w.prune->ok && w.prune->ok(part + "/"));
      }
    }
    struct stat fs;
    if (!ok || stat((root + "/" + f.first).c_str(), &fs) || !S_ISREG(fs.st_mode)) {
      hk::fail("unselected-file-offered", what + " " + f.first);
    } else if (fs.st_size != f.second) {
      hk::fail("size-differs", what + " " + f.first);
    }
  }
  // When links are followed a directory may be reached in several ways, one
  // of which is enough; plain files and links to files are all expected.
  if (fired.empty()) {
    bool aliases = false;
    for (auto& r : w.byReal) {
      aliases |= r.second.size() > 1;
    }
    if (!aliases || !w.follow) {
      for (auto& f : w.files) {
        if (!got.count(f.first)) {
          hk::fail("file-not-offered", what + " " + f.first);
        }
      }
    } else if (!w.inc->ok && !w.exc->ok && !w.prune->ok) {
      set<string> reached, wanted;
      for (auto& f : w.files) {
        wanted.insert(w.target[f.first]);
        if (got.count(f.first)) {
          reached.insert(w.target[f.first]);
        }
      }
      for (auto& t : wanted) {
        if (!reached.count(t)) {
          hk::fail("content-not-offered", what + " " + t);
        }
      }
      hk::count("trees_with_aliases");
    }
  } else if (failedDirs.empty()) {
    for (auto& f : w.files) {
      if (!got.count(f.first) && !failed.count(f.first) && !w.follow) {
        hk::fail("file-neither-offered-nor-failed", what + " " + f.first);
      }
    }
  }
}

// ------------------------------------------------------------ byte source
static void sourceCase(hk::Rng& g) {
  string root = gRoot + "/s";
  rmTree(root);
  mkdir(root.c_str(), 0755);
  WdtOptions opt;
  opt.buffer_size = 4096 * g.in(1, 8);
  bool direct = g.p(40);
  int64_t len = g.p(20) ? g.in(0, 10) : g.p(50) ? g.in(0, 20000) : 4096 * g.in(0, 40) + g.in(-1, 1);
  if (len < 0) {
    len = 0;
  }
  string data = g.bytes(len);
  string path = root + "/file";
  mkFile(path, len, &data);
  SourceMetaData md;
  md.fullPath = path;
  md.relPath = "file";
  md.size = len;
  md.directReads = direct;
  int64_t off = len ? g.in(0, len) : 0;
  int64_t size = g.p(30) ? len - off : g.in(0, len - off);
  if (g.p(30)) {
    opt.skip_fadvise = true;
  }
  int shared = -1;
  NoAbort ab;
  ThreadCtx ctx(opt, true, 0);
  ctx.setAbortChecker(&ab);
  if (g.p(25)) {
    shared = FileUtil::openForRead(ctx, path, direct);
    md.fd = shared;
  }
  int change = g.p(40) ? g.in(1, 4) : 0;  // 1 shrink 2 vanish 3 grow 4 shrink meanwhile
  int64_t newLen = len;
  string what = hk::fmt("len %ld off %ld size %ld buffer %ld direct %d shared %d change %d", (long)len, (long)off, (long)size,
                        (long)ctx.getBuffer()->getSize(), direct, shared >= 0, change);
  HK_CTX("source %s", what.c_str());
  hk::eval(hk::h64(what));
  auto shrink = [&] {
    newLen = len ? g.in(0, len - 1) : 0;
    (void)!truncate(path.c_str(), newLen);
  };
  if (change == 1) {
    shrink();
  } else if (change == 2) {
    unlink(path.c_str());
  } else if (change == 3) {
    newLen = len + g.in(1, 9000);
    (void)!truncate(path.c_str(), newLen);
  }
  FileByteSource s(&md, size, off);
  int rounds = g.in(1, 3);
  for (int round = 0; round < rounds; ++round) {
    ErrorCode e = s.open(&ctx);
    if (change == 2 && shared < 0) {
      if (e == OK || !s.hasError()) {
        hk::fail("vanished-file-opened", what);
      }
      break;
    }
    if (e != OK) {
      hk::count("open_refused");  // direct i/o is not available everywhere
      if (!direct) {
        hk::fail("open-failed", what);
      }
      break;
    }
    if (s.getSize() != size || s.getOffset() != off) {
      hk::fail("range-changed", what);
    }
    string got;
    int reads = 0;
    int stopAt = round + 1 < rounds ? g.in(0, 3) : 1 << 30;
    bool bad = false;
    int64_t minLen = newLen;
    while (!s.finished() && reads < stopAt) {
      if (change == 4 && reads == 1 && round + 1 == rounds) {
        shrink();
        minLen = newLen;
      }
      int64_t n = -7;
      char* p = s.read(n);
      ++reads;
      if (!p) {
        bad = true;
        break;
      }
      if (n <= 0 || n > ctx.getBuffer()->getSize() || (int64_t)got.size() + n > size) {
        hk::fail("read-size", what + hk::fmt(" returned %ld after %zu", (long)n, got.size()));
        bad = true;
        break;
      }
      got.append(p, n);
    }
    hk::count("source_bytes", got.size());
    string want = data.substr(off, got.size());
    // a grown file reads as before, a shrunken one as far as it goes
    if (change != 4 && got != want) {
      hk::fail("source-content", what + hk::fmt(" %zu bytes", got.size()));
    }
    if (change == 4 && got != want) {
      hk::fail("source-content", what + hk::fmt(" shrunk to %ld, %zu bytes", (long)newLen, got.size()));
    }
    if (round + 1 == rounds) {
      bool enough = off + size <= minLen;
      if (enough && (bad || (int64_t)got.size() != size || s.hasError())) {
        hk::fail("source-short", what + hk::fmt(" %zu bytes", got.size()));
      }
      if (!enough && size > 0 && change == 1 && (s.finished() || !s.hasError())) {
        hk::fail("short-file-not-reported", what + hk::fmt(" shrunk to %ld, %zu bytes", (long)newLen, got.size()));
      }
      if (s.finished() != ((int64_t)got.size() == size && !s.hasError())) {
        hk::fail("source-finished", what);
      }
      if (s.finished()) {
        int64_t n = 5;
        if (s.read(n) != nullptr || n != 0) {
          hk::fail("read-after-end", what);
        }
      }
    }
    if (bad) {
      break;
    }
    if (round + 1 < rounds && g.p(60)) {
      int64_t k = g.p(50) ? (int64_t)got.size() : g.in(0, size);
      s.advanceOffset(k);
      off += k;
      size -= k;
      if (s.getOffset() != off || s.getSize() != size) {
        hk::fail("advance", what);
      }
    }
  }
  s.close();
  if (shared >= 0) {
    if (fcntl(shared, F_GETFD) < 0) {
      hk::fail("shared-fd-closed", what);
    }
    close(shared);
  }
}

// ----------------------------------------------------------------- history
// A set of sender threads with histories; a model decides which blocks (or
// parts) its receiver got, the checkpoints say so, and everything returned
// is sent again until all is acknowledged. Every byte counts exactly once.
static void historyCase(hk::Rng& g) {
  string root = gRoot + "/h";
  rmTree(root);
  mkdir(root.c_str(), 0755);
  WdtOptions opt;
  int nf = g.in(1, 8);
  map<string, int64_t> sizes;
  for (int i = 0; i < nf; ++i) {
    string n = hk::fmt("f%d", i);
    sizes[n] = g.p(15) ? 0 : g.in(1, 20000);
    mkFile(root + "/" + n, sizes[n]);
  }
  int64_t bs = g.in(500, 6000);
  DirectorySourceQueue q(opt, root, &gNoAbort);
  q.setBlockSizeMbytes(bs / 1048576.0);
  q.buildQueueSynchronously();
  int64_t blocks = q.getNumBlocksAndStatus().first;
  TransferHistoryController ctl(q);
  int nt = g.in(1, 3);
  vector<TransferStats> stats;
  for (int i = 0; i < nt; ++i) {
    stats.emplace_back(true);
  }
  for (int i = 0; i < nt; ++i) {
    ctl.addThreadHistory(100 + i, stats[i]);
  }
  bool seqIds = g.p(85);
  string what = hk::fmt("files %d block %ld blocks %ld threads %d seqids %d", nf, (long)bs, (long)blocks, nt, seqIds);
  HK_CTX("history %s", what.c_str());
  hk::eval(hk::h64(what) + g.s);
  struct Sent {
    string name;
    int64_t seq, off, size, wire;
    bool full;
  };
  map<string, vector<Blk>> delivered;
  vector<bool> alive(nt, true);
  vector<vector<Sent>> hist(nt);   // as the model knows it
  vector<int64_t> acked(nt, 0);
  vector<int> sameRounds(nt, 0);
  struct Last {
    bool have = false;
    int64_t n = 0, seq = -1, off = 0, bytes = 0;
  };
  vector<Last> lastCp(nt);
  ThreadCtx ctx(opt, true, 0);
  int64_t header = 10;
  long sends = 0, fails = 0, partial = 0;
  int faultsLeft = g.in(0, 12);
  int deadLeft = nt - 1;
  bool stop = false;
  int guard = 0;
  while (!stop && ++guard < 4000) {
    int t = g.in(0, nt - 1);
    if (!alive[t]) {
      bool any = false;
      for (bool a : alive) {
        any |= a;
      }
      if (!any) {
        break;
      }
      continue;
    }
    auto& hy = ctl.getTransferHistory(100 + t);
    ErrorCode st;
    bool fault = false;
    int k = g.in(1, 6);
    for (int i = 0; i < k && !fault; ++i) {
      auto s = q.getNextSource(&ctx, st);
      if (!s) {
        break;
      }
      ++sends;
      Got x = of(*s);
      TransferStats ts;
      ts.addHeaderBytes(header);
      bool werr = faultsLeft > 0 && g.p(12);
      if (werr) {
        --faultsLeft;
        ts.addDataBytes(x.size ? g.in(0, x.size - 1) : 0);
        ts.setLocalErrorCode(SOCKET_WRITE_ERROR);
        ts.incrFailedAttempts();
        fault = true;
      } else {
        ts.addDataBytes(x.size);
        ts.setLocalErrorCode(OK);
        ts.incrNumBlocks();
        ts.addEffectiveBytes(header, x.size);
      }
      stats[t] += ts;
      s->addTransferStats(ts);
      s->close();
      if (!hy.addSource(s)) {
        hk::fail("history-add-refused", what);
        return;
      }
      hist[t].push_back({x.name, x.seq, x.off, x.size, ts.getDataBytes(), !werr});
    }
    bool empty = q.finished();
    if (!fault && faultsLeft > 0 && g.p(20)) {
      fault = true;
      --faultsLeft;
    }
    if (fault) {
      // the receiver got some prefix of what was sent since the last answer
      int64_t n0 = acked[t], n1 = hist[t].size();
      int64_t n = g.in(n0, n1);
      while (n > n0 && !hist[t][n - 1].full) {
        --n;
      }
      Checkpoint cp(100 + t);
      cp.numBlocks = n;
      int64_t bytes = 0;
      if (n < n1) {
        auto& b = hist[t][n];
        bytes = g.p(50) ? 0 : g.in(0, b.full ? b.size : b.wire);
        if (seqIds) {
          cp.hasSeqId = true;
          cp.setLastBlockDetails(b.seq, b.off, bytes);
        } else {
          cp.lastBlockReceivedBytes = bytes;
        }
      }
      bool kill = deadLeft > 0 && g.p(25);
      // the exact same checkpoint again without progress is legal, but tells
      // the sender to give up this connection
      bool same = lastCp[t].have && lastCp[t].n == n;
      if (kill) {
        --deadLeft;
        alive[t] = false;
        hy.markNotInUse();
        ctl.handleGlobalCheckpoint(cp);
        if (!hy.isGlobalCheckpointReceived()) {
          if (!same) {
            hk::fail("global-checkpoint-lost", what);
          }
          return;
        }
      } else {
        ErrorCode e = hy.setLocalCheckpoint(cp);
        if (e == INVALID_CHECKPOINT && same) {
          // same block again with another count can not be told from a lie
          hk::count("same_block_checkpoints");
          return;
        }
        if (e == INVALID_CHECKPOINT || (e == NO_PROGRESS && !same)) {
          hk::fail("valid-checkpoint-refused", what + hk::fmt(" %ld of %ld code %s", (long)n, (long)n1, errorCodeToStr(e).c_str()));
          return;
        }
      }
      lastCp[t].have = true;
      lastCp[t].n = n;
      for (int64_t i = n0; i < n; ++i) {
        delivered[hist[t][i].name].push_back({hist[t][i].off, hist[t][i].size});
      }
      if (n < n1 && bytes) {
        delivered[hist[t][n].name].push_back({hist[t][n].off, bytes});
        ++partial;
      }
      fails += n1 - n;
      hist[t].resize(n);
      acked[t] = n;
      if (hy.getNumAcked() != n) {
        hk::fail("acked-count", what + hk::fmt(" %ld for %ld", (long)hy.getNumAcked(), (long)n));
      }
    } else if (empty) {
      stop = q.finished();
    }
  }
  // the rest is acknowledged
  int64_t ackedBlocks = 0;
  int64_t sumData = 0;
  for (int t = 0; t < nt; ++t) {
    auto& hy = ctl.getTransferHistory(100 + t);
    hy.markAllAcknowledged();
    for (size_t i = acked[t]; i < hist[t].size(); ++i) {
      delivered[hist[t][i].name].push_back({hist[t][i].off, hist[t][i].size});
    }
    ackedBlocks += hist[t].size();
    if (hy.getNumAcked() != (int64_t)hist[t].size()) {
      hk::fail("acked-count", what + hk::fmt(" at end %ld for %zu", (long)hy.getNumAcked(), hist[t].size()));
      return;
    }
    for (auto& s : hy.popAckedSourceStats()) {
      sumData += s.getEffectiveDataBytes();
      if (s.getLocalErrorCode() != OK) {
        hk::fail("acked-source-has-error", what + " " + errorCodeToStr(s.getLocalErrorCode()));
      }
      if (s.getNumBlocks() != 1) {
        hk::fail("acked-source-blocks", what + hk::fmt(" %ld", (long)s.getNumBlocks()));
      }
    }
  }
  hk::count("history_sends", sends);
  hk::count("history_failed_blocks", fails);
  hk::count("history_partial_blocks", partial);
  if (!q.finished()) {
    hk::fail("blocks-left-over", what);
    return;
  }
  if (ackedBlocks != blocks) {
    hk::fail("acked-blocks", what + hk::fmt(" %ld for %ld", (long)ackedBlocks, (long)blocks));
  }
  int64_t all = 0;
  for (auto& f : sizes) {
    auto v = delivered[f.first];
    std::sort(v.begin(), v.end());
    int64_t at = 0;
    for (auto& b : v) {
      if (b.off != at) {
        hk::fail("byte-not-exactly-once", what + hk::fmt(" %s at %ld, next block %ld", f.first.c_str(), (long)at, (long)b.off));
        break;
      }
      at += b.size;
    }
    if (at != f.second) {
      hk::fail("byte-not-exactly-once", what + hk::fmt(" %s ends at %ld of %ld", f.first.c_str(), (long)at, (long)f.second));
    }
    all += f.second;
  }
  if (sumData != all) {
    hk::fail("effective-bytes", what + hk::fmt(" %ld for %ld", (long)sumData, (long)all));
  }
  int64_t tb = 0, td = 0;
  for (auto& s : stats) {
    tb += s.getNumBlocks();
    td += s.getEffectiveDataBytes();
  }
  if (tb != blocks || td != all) {
    hk::fail("thread-stats", what + hk::fmt(" blocks %ld for %ld, bytes %ld for %ld", (long)tb, (long)blocks, (long)td, (long)all));
  }
}

int main(int argc, char** argv) {
  hk::init();
  hk::Rng g(hk::arg(argc, argv, "seed", 1));
  long n = hk::arg(argc, argv, "n", 100);
  string mode = hk::sarg(argc, argv, "mode", "blocks");
  gRoot = hk::sarg(argc, argv, "dir", "");
  if (gRoot.size() < 6) {
    return 2;
  }
  char* rp = realpath(gRoot.c_str(), nullptr);
  gRoot = rp;
  free(rp);
  for (long i = 0; i < n; ++i) {
    if (mode == "blocks") {
      blocksCase(g, 1);
    } else if (mode == "conc") {
      blocksCase(g, g.in(2, 8));
    } else if (mode == "walk") {
      walkCase(g);
    } else if (mode == "source") {
      sourceCase(g);
    } else if (mode == "history") {
      historyCase(g);
    }
  }
  return hk::done();
}
