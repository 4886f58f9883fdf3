// Runs real transfers (Sender and Receiver, in one or two processes), with an
// optional fault-injecting relay between them, and prints what both reported.
//   role=both|recv|send  src= dst= url= ports=N id= s.<option>= r.<option>=
//   f=<rule>  proxy=0|1 chunk= cap=  abort=<s|r>:<ms|bBYTES>  reps=N  setopt...
#include <dirent.h>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Wdt.h>
#include <wdt/util/WdtFlags.h>
#include "hk.h"
#include "proxy.h"
using namespace facebook::wdt;
using std::string;

static std::vector<std::pair<string, string>> args;
static string get(const string& k, const string& def = "") {
  for (auto& a : args) {
    if (a.first == k) {
      return a.second;
    }
  }
  return def;
}
static long geti(const string& k, long def = 0) {
  string s = get(k);
  return s.empty() ? def : atol(s.c_str());
}
static void options(char side, WdtOptions& o) {
  GFLAGS_NAMESPACE::FlagSaver saver;
  // quick defaults of the harness; the case may override them
  for (auto& a : args) {
    if (a.first.size() > 2 && (a.first[0] == side || a.first[0] == 'b') && a.first[1] == '.') {
      string r = GFLAGS_NAMESPACE::SetCommandLineOption(("wdt_" + a.first.substr(2)).c_str(), a.second.c_str());
      if (r.empty()) {
        fprintf(stderr, "bad option %s=%s\n", a.first.c_str(), a.second.c_str());
        _exit(3);
      }
    }
  }
  WdtFlags::initializeFromFlags(o);
}
static string js(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      r += hk::fmt("\\u%04x", c);
    } else {
      r += c;
    }
  }
  return r + "\"";
}
static string stats(const TransferStats& s) {
  return hk::fmt(
             "{\"err\":%s,\"local\":%s,\"remote\":%s,\"hdr\":%ld,\"data\":%ld,\"ehdr\":%ld,\"edata\":%ld,\"files\":%ld,"
             "\"blocks\":%ld,\"failed\":%ld,\"blocksSend\":%ld,\"senderBytes\":%ld,\"enc\":%d,\"id\":",
             js(errorCodeToStr(s.getErrorCode())).c_str(), js(errorCodeToStr(s.getLocalErrorCode())).c_str(),
             js(errorCodeToStr(s.getRemoteErrorCode())).c_str(), s.getHeaderBytes(), s.getDataBytes(),
             s.getEffectiveHeaderBytes(), s.getEffectiveDataBytes(), s.getNumFiles(), s.getNumBlocks(),
             s.getFailedAttempts(), s.getNumBlocksSend(), s.getTotalSenderBytes(), (int)s.getEncryptionType()) +
         js(s.getId()) + "}";
}
static string report(const std::unique_ptr<TransferReport>& r) {
  if (!r) {
    return "null";
  }
  string o = "{\"summary\":" + stats(r->getSummary());
  o += hk::fmt(",\"total\":%ld,\"discovered\":%ld,\"prev\":%ld,\"discoveryDone\":%d,\"time\":%.3f", r->getTotalFileSize(),
               r->getNumDiscoveredFiles(), r->getPreviouslySentBytes(), (int)r->fileDiscoveryFinished(),
               r->getTotalTime());
  auto list = [&](const char* n, const std::vector<TransferStats>& v) {
    o += string(",\"") + n + "\":[";
    for (size_t i = 0; i < v.size(); ++i) {
      o += (i ? "," : "") + stats(v[i]);
    }
    o += "]";
  };
  list("sources", r->getTransferredSourceStats());
  list("failedSources", r->getFailedSourceStats());
  list("threads", r->getThreadStats());
  o += ",\"failedDirs\":[";
  for (size_t i = 0; i < r->getFailedDirectories().size(); ++i) {
    o += (i ? "," : "") + js(r->getFailedDirectories()[i]);
  }
  return o + "]}";
}
static int countDir(const char* d) {
  int n = 0;
  if (DIR* p = opendir(d)) {
    while (readdir(p)) {
      ++n;
    }
    closedir(p);
  }
  return n;
}
static string fds() {
  string r;
  if (DIR* p = opendir("/proc/self/fd")) {
    while (dirent* e = readdir(p)) {
      char b[512], l[300];
      snprintf(l, sizeof l, "/proc/self/fd/%s", e->d_name);
      ssize_t n = readlink(l, b, sizeof b - 1);
      if (n > 0) {
        b[n] = 0;
        r += string(e->d_name) + "=" + b + " ";
      }
    }
    closedir(p);
  }
  return r;
}
class NullReporter : public ProgressReporter {
 public:
  explicit NullReporter(const WdtTransferRequest& r) : ProgressReporter(r) {
  }
  void progress(const std::unique_ptr<TransferReport>& r) override {
    std::ostringstream os;
    os << *r;
    n++;
  }
  void end(const std::unique_ptr<TransferReport>& r) override {
    std::ostringstream os;
    os << *r;
  }
  std::atomic<int> n{0};
};
class ExtAbort : public IAbortChecker {
 public:
  bool shouldAbort() const override {
    return flag;
  }
  std::atomic<bool> flag{false};
};
// The sender keeps talking about the receiver's ports (checkpoints name them);
// only its connections go through the relay.
class RelayCreator : public Sender::ISocketCreator {
 public:
  std::map<int, int> m;
  std::unique_ptr<IClientSocket> makeClientSocket(ThreadCtx& c, const string& dest, int port, const EncryptionParams& e,
                                                  int64_t iv, bool) override {
    auto it = m.find(port);
    return std::make_unique<ClientSocket>(c, dest, it == m.end() ? port : it->second, e, iv);
  }
};
static int64_t ms() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000ll + t.tv_nsec / 1000000;
}

static string once(const string& role, int rep) {
  int64_t t0 = ms();
  int fd0 = countDir("/proc/self/fd"), th0 = countDir("/proc/self/task");
  string out = "{";
  {
    std::unique_ptr<Receiver> recv;
    std::unique_ptr<Sender> snd;
    auto extS = std::make_shared<ExtAbort>(), extR = std::make_shared<ExtAbort>();
    WdtTransferRequest rreq, sreq;
    std::unique_ptr<TransferReport> rrep, srep;
    WdtOptions so, ro;
    string dst = get("dst");
    bool faulty = rep == 0 || !geti("fault0");  // faults in the first run only
    if (geti("reps", 1) > 1 && !geti("samedst")) {
      dst += "/rep" + std::to_string(rep);
    }
    bool initOk = true;
    // a throttler that the application changes is the application's own
    std::shared_ptr<Throttler> thrS, thrR;
    auto changes = [&](char who) {
      for (auto& a : args) {
        if (a.first == "act" && a.second[0] == who && a.second.find(":throttle:") != string::npos) {
          return true;
        }
      }
      return false;
    };
    if (role != "send") {
      options('r', ro);
      WdtTransferRequest q(ro.start_port, ro.num_ports, dst);
      if (geti("anyport", 1)) {
        q = WdtTransferRequest(0, ro.num_ports, dst);
      }
      q.transferId = get("id", "vtest");
      if (get("id") == "-") {
        q.transferId = "";
      }
      q.hostName = "127.0.0.1";
      if (!get("rproto").empty()) {
        q.protocolVersion = geti("rproto");
      }
      if (const char* sec = getenv("XFER_SECRET")) {
        // type:hex, as in a URL; not among the arguments, which may be shown
        EncryptionParams::unserialize(sec, q.encryptionData);
      }
      recv = std::make_unique<Receiver>(q);
      recv->setWdtOptions(ro);
      if (changes('r')) {
        thrR = std::make_shared<Throttler>(ro.getThrottlerOptions());
        recv->setThrottler(thrR);
      }
      if (!get("recovery").empty()) {
        recv->setRecoveryId(get("recovery"));
      }
      if (geti("report_cb")) {
        std::unique_ptr<ProgressReporter> pr = std::make_unique<NullReporter>(recv->getTransferRequest());
        recv->setProgressReporter(pr);
      }
      if (geti("extabort")) {
        recv->setAbortChecker(extR);
      }
      rreq = recv->init();
      out += "\"rinit\":" + js(errorCodeToStr(rreq.errorCode)) + ",";
      if (rreq.errorCode != OK && rreq.errorCode != FEWER_PORTS) {
        initOk = false;
      }
      if (initOk) {
        recv->transferAsync();
      }
      if (role == "recv") {
        printf("URL %s\n", rreq.genWdtUrlWithSecret().c_str());
        fflush(stdout);
      }
    }
    Proxy proxy;
    RelayCreator creator;
    bool useProxy = geti("proxy") != 0 || !get("f").empty() || !get("cap").empty() || geti("chunk");
    if (role != "recv" && initOk) {
      options('s', so);
      if (role == "send") {
        sreq = WdtTransferRequest(get("url"));
      } else if (geti("viaurl", 1)) {
        sreq = WdtTransferRequest(rreq.genWdtUrlWithSecret());
      } else {
        sreq = rreq;
      }
      if (sreq.errorCode != OK) {
        out += "\"urlerr\":" + js(errorCodeToStr(sreq.errorCode)) + ",";
      }
      sreq.hostName = get("host", "127.0.0.1");
      sreq.directory = get("src");
      if (!get("sproto").empty()) {
        sreq.protocolVersion = geti("sproto");
      }
      if (!get("sid").empty()) {
        sreq.transferId = get("sid");
      }
      if (!get("list").empty()) {
        // explicit files: name|size|direct per line
        FILE* f = fopen(get("list").c_str(), "r");
        char line[8192];
        while (f && fgets(line, sizeof line, f)) {
          string l(line);
          while (!l.empty() && l.back() == '\n') {
            l.pop_back();
          }
          size_t b2 = l.rfind('|'), b1 = l.rfind('|', b2 - 1);
          sreq.fileInfo.emplace_back(l.substr(0, b1), atoll(l.substr(b1 + 1).c_str()), l.substr(b2 + 1) == "1");
        }
        if (f) {
          fclose(f);
        }
        sreq.disableDirectoryTraversal = true;
      }
      if (useProxy) {
        for (auto& a : args) {
          if (a.first == "f" && faulty) {
            proxy.rules.push_back(Proxy::parse(a.second));
          }
        }
        proxy.capture = get("cap");
        proxy.chunk = faulty ? geti("chunk") : 0;
        proxy.delayUs = geti("chunk_us");
        proxy.seed = geti("seed", 1);
        for (auto& p : sreq.ports) {
          creator.m[p] = proxy.add("127.0.0.1", p);
        }
      }
      snd = std::make_unique<Sender>(sreq);
      snd->setWdtOptions(so);
      if (changes('s')) {
        thrS = std::make_shared<Throttler>(so.getThrottlerOptions());
        snd->setThrottler(thrS);
      }
      if (useProxy) {
        snd->setSocketCreator(&creator);
      }
      if (geti("extabort")) {
        snd->setAbortChecker(extS);
      }
      if (geti("report_cb")) {
        std::unique_ptr<ProgressReporter> pr = std::make_unique<NullReporter>(snd->getTransferRequest());
        snd->setProgressReporter(pr);
      }
    }
    // aborts and option changes at times or byte counts
    struct Act {
      char who;
      string what;
      int64_t at;
      bool bytes;
      std::atomic<bool> done{false};
    };
    std::vector<std::unique_ptr<Act>> acts;
    for (auto& a : args) {
      if (a.first == "act" && faulty) {  // who:what:at   at = ms or bBYTES
        auto x = std::make_unique<Act>();
        size_t c1 = a.second.find(':'), c2 = a.second.rfind(':');
        x->who = a.second[0];
        x->what = a.second.substr(c1 + 1, c2 - c1 - 1);
        string at = a.second.substr(c2 + 1);
        x->bytes = at[0] == 'b';
        x->at = atoll(at.c_str() + (x->bytes ? 1 : 0));
        acts.push_back(std::move(x));
      }
    }
    std::atomic<int64_t> actAt{0};
    auto perform = [&](Act& x) {
      if (x.done.exchange(true)) {
        return;
      }
      actAt = ms();
      WdtBase* w = x.who == 's' ? (WdtBase*)snd.get() : (WdtBase*)recv.get();
      if (!w) {
        return;
      }
      if (x.what == "abort") {
        w->abort(ABORTED_BY_APPLICATION);
      } else if (x.what == "extabort") {
        (x.who == 's' ? extS : extR)->flag = true;
      } else if (x.what == "throttle") {
        if (auto t = x.who == 's' ? thrS : thrR) {
          double av = 500e6, mx = 600e6, bk = 100e6;
          t->setThrottlerRates(av, mx, bk);
        }
      } else if (x.what == "rename") {
        rename(get("rn_from").c_str(), get("rn_to").c_str());
      } else if (x.what == "truncate") {
        (void)!truncate(get("tr_file").c_str(), geti("tr_size"));
      } else if (x.what == "kill") {
        kill(getpid(), SIGKILL);
      }
    };
    std::atomic<bool> stop{false};
    std::thread timer;
    bool timed = false;
    for (auto& x : acts) {
      timed |= !x->bytes;
    }
    proxy.onBytes = [&](int64_t tot) {
      for (auto& x : acts) {
        if (x->bytes && tot >= x->at) {
          perform(*x);
        }
      }
    };
    int64_t tStart = ms();
    if (timed) {
      timer = std::thread([&] {
        while (!stop) {
          for (auto& x : acts) {
            if (!x->bytes && ms() - tStart >= x->at) {
              perform(*x);
            }
          }
          usleep(300);
        }
      });
    }
    if (useProxy && snd) {
      proxy.start();
    }
    int64_t sEnd = 0, rEnd = 0;
    std::thread rf;
    if (recv && initOk) {
      rf = std::thread([&] {
        rrep = recv->finish();
        rEnd = ms();
      });
    }
    if (snd) {
      if (long d = faulty ? geti("delay_start") : 0) {
        usleep(d * 1000);
      }
      if (geti("async")) {
        const WdtTransferRequest& q = snd->init();
        if (q.errorCode == OK) {
          snd->transferAsync();
        }
        srep = snd->finish();
      } else {
        srep = snd->transfer();
      }
      sEnd = ms();
    }
    if (rf.joinable()) {
      rf.join();
    }
    stop = true;
    if (timer.joinable()) {
      timer.join();
    }
    if (useProxy && snd) {
      proxy.stop();
    }
    if (geti("show")) {
      // what an application may log about the two
      if (recv) {
        std::cerr << "SHOWN " << recv->getTransferRequest() << " " << rreq.getLogSafeString() << std::endl;
      }
      if (snd) {
        std::cerr << "SHOWN " << snd->getTransferRequest() << " " << sreq.getLogSafeString() << std::endl;
      }
      for (auto* r : {srep.get(), rrep.get()}) {
        if (r) {
          std::cerr << "SHOWN " << *r << std::endl;
        }
      }
    }
    out += "\"s\":" + report(srep) + ",\"r\":" + report(rrep);
    out += hk::fmt(",\"s_ms\":%ld,\"r_ms\":%ld,\"act_ms\":%ld", sEnd ? sEnd - tStart : -1, rEnd ? rEnd - tStart : -1,
                   actAt ? actAt - tStart : -1);
    if (snd) {
      out += hk::fmt(",\"sver\":%d", snd->getProtocolVersion());
    }
    if (recv) {
      out += hk::fmt(",\"rver\":%d", recv->getProtocolVersion());
    }
    out += ",\"conns\":[";
    int64_t b0 = 0, b1 = 0;
    bool first = true;
    for (auto& r : proxy.records()) {
      out += hk::fmt("%s[%d,%d,%ld,%ld,\"%s\"]", first ? "" : ",", r.port, r.conn, r.bytes[0], r.bytes[1],
                     r.fired.c_str());
      first = false;
      b0 += r.bytes[0];
      b1 += r.bytes[1];
    }
    out += hk::fmt("],\"s2r\":%ld,\"r2s\":%ld", b0, b1);
    string rports;
    if (recv) {
      for (auto p : rreq.ports) {
        rports += std::to_string(p) + " ";
      }
    }
    out += ",\"rports\":" + js(rports);
  }
  // everything is destroyed here
  int fd1 = countDir("/proc/self/fd"), th1 = 0;
  for (int i = 0; i < 100; ++i) {
    th1 = countDir("/proc/self/task");
    if (th1 <= th0) {
      break;
    }
    usleep(10000);
  }
  out += hk::fmt(",\"fd0\":%d,\"fd1\":%d,\"th0\":%d,\"th1\":%d,\"ms\":%ld", fd0, fd1, th0, th1, ms() - t0);
  if (fd1 > fd0) {
    out += ",\"fds\":" + js(fds());
  }
  return out + "}";
}

int main(int argc, char** argv) {
  hk::init();
  GFLAGS_NAMESPACE::SetCommandLineOption("v", "0");
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    size_t e = a.find('=');
    if (e == string::npos) {
      return 3;
    }
    args.emplace_back(a.substr(0, e), a.substr(e + 1));
  }
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = geti("log", 1);
  FLAGS_v = geti("v", 0);
  google::InitGoogleLogging("xfer");
  // warm up lazily created descriptors before counting
  hk::ctxbuf();
  std::string c;
  for (int i = 1; i < argc; ++i) {
    c += string(argv[i]) + " ";
  }
  HK_CTX("%s", c.c_str());
  for (int i = 0; i < geti("reps", 1); ++i) {
    string o = once(get("role", "both"), i);
    printf("\nJSON %s\n", o.c_str());
    fflush(stdout);
  }
  return 0;
}
