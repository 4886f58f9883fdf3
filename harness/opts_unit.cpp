// C30: options in one process: flags to options, disk type rules, isolation
// between transfers.
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <dirent.h>
#include <sys/stat.h>
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Wdt.h>
#include <wdt/util/WdtFlags.h>
#include <fstream>
#include <sstream>
#include <thread>
#include "hk.h"
using namespace facebook::wdt;
using std::string;
typedef std::map<string, string> Vals;

struct Opt {
  string name, type, def, disk;  // disk: default of the disk type, or "-"
};
static std::vector<Opt> gTable;
static string gDir;

static Vals values(const WdtOptions& o) {
  std::ostringstream s;
  WdtFlags::printOptions(s, o);
  Vals v;
  std::istringstream in(s.str());
  string l;
  while (std::getline(in, l)) {
    size_t t = l.find('\t');
    if (t == string::npos) {
      continue;
    }
    size_t sp = l.find(' ', t);
    v[l.substr(t + 1, sp - t - 1)] = sp == string::npos ? "" : l.substr(sp + 1);
  }
  v["close_on_exec"] = o.close_on_exec ? "1" : "0";
  return v;
}
static bool same(const string& type, const string& a, const string& b) {
  if (type == "double") {
    double x = atof(a.c_str()), y = atof(b.c_str());
    return x == y || std::abs(x - y) <= 1e-5 * std::max(std::abs(x), std::abs(y));
  }
  if (type == "bool") {
    auto t = [](const string& s) { return s == "1" || s == "true"; };
    return t(a) == t(b);
  }
  return a == b;
}
static string value(hk::Rng& r, const Opt& o) {
  if (r.u(5) == 0) {
    return o.type == "bool" ? (o.def == "1" ? "true" : "false") : o.def;
  }
  if (o.type == "bool") {
    return r.u(2) ? "true" : "false";
  }
  if (o.type == "string") {
    static const char* s[] = {"", "a.*b", "x y", "none", "[0-9]+\\.txt"};
    return s[r.u(5)];
  }
  if (o.type == "double") {
    static const char* s[] = {"-1", "0", "0.25", "17.5", "1000000", "1e-3"};
    return s[r.u(6)];
  }
  switch (r.u(4)) {
    case 0: return "-1";
    case 1: return "0";
    case 2: return "2147483647";
    default: return std::to_string((long)r.u(100000));
  }
}
static string diff(const Vals& want, const Vals& got) {
  string d;
  for (auto& o : gTable) {
    auto i = got.find(o.name);
    if (i == got.end()) {
      d += o.name + " missing; ";
    } else if (!same(o.type, want.at(o.name), i->second)) {
      d += o.name + " is " + i->second + " not " + want.at(o.name) + "; ";
    }
  }
  return d;
}
// what the documented rules make of the values
static Vals rules(Vals v, const string& type, const std::set<string>& spec) {
  if (type == "disk") {
    for (auto& o : gTable) {
      if (o.disk != "-" && !spec.count(o.name)) {
        v[o.name] = o.disk;
      }
    }
  }
  if (spec.count("start_port") && !spec.count("static_ports")) {
    v["static_ports"] = "1";
  }
  return v;
}
static string type(hk::Rng& r) {
  static const char* t[] = {"disk", "disk", "flash", "", "Disk", "disk ", "ssd", "flashdisk", "dis"};
  return t[r.u(9)];
}

static void flags(hk::Rng& r) {
  gflags::FlagSaver saver;
  Vals want;
  std::set<string> spec;
  for (auto& o : gTable) {
    want[o.name] = o.def;
  }
  string desc, ty = "flash";
  int dens = 1 + r.u(12);
  for (auto& o : gTable) {
    if (o.name == "close_on_exec" || r.u(dens)) {
      continue;
    }
    string v = value(r, o);
    if (gflags::SetCommandLineOption(("wdt_" + o.name).c_str(), v.c_str()).empty()) {
      hk::fail("flag-refused", o.name + "=" + v);
      continue;
    }
    want[o.name] = v;
    spec.insert(o.name);
    desc += o.name + "=" + v + " ";
  }
  if (r.u(3)) {
    ty = type(r);
    gflags::SetCommandLineOption("wdt_option_type", ty.c_str());
  }
  want = rules(want, ty, spec);
  HK_CTX("flags %s type=%s", desc.c_str(), ty.c_str());
  WdtOptions o;
  if (r.u(2)) {
    // whatever was there before must not matter
    o.num_ports = 77;
    o.include_regex = "zz";
    o.disable_preallocation = true;
    o.static_ports = true;
    o.block_size_mbytes = 3;
  }
  WdtFlags::initializeFromFlags(o);
  string d = diff(want, values(o));
  if (!d.empty()) {
    hk::fail("flags", d + "| type '" + ty + "' " + desc);
  }
  WdtFlags::initializeFromFlags(o);
  if (!(d = diff(want, values(o))).empty()) {
    hk::fail("flags-twice", d + "| type '" + ty + "' " + desc);
  }
  hk::eval(hk::h64(desc + ty));
  hk::count("flags_set", spec.size());
  hk::count("flags_type_" + string(ty == "disk" ? "disk" : ty == "flash" ? "flash" : "other"));
}

static void fill(hk::Rng& r, WdtOptions& o, string& desc) {
  gflags::FlagSaver saver;
  int dens = 1 + r.u(8);
  for (auto& x : gTable) {
    if (x.name == "close_on_exec" || r.u(dens)) {
      continue;
    }
    string v = value(r, x);
    gflags::SetCommandLineOption(("wdt_" + x.name).c_str(), v.c_str());
    desc += x.name + "=" + v + " ";
  }
  WdtFlags::initializeFromFlags(o);
}

static void modify(hk::Rng& r) {
  WdtOptions o, p;
  string desc, ty = type(r);
  fill(r, o, desc);
  o.close_on_exec = r.u(2);
  p.copyInto(o);
  Vals was = values(o);
  if (values(p) != was) {
    hk::fail("copy", desc);
  }
  std::set<string> spec;
  for (auto& x : gTable) {
    if (r.u(3) == 0) {
      spec.insert(x.name);
    }
  }
  if (r.u(4) == 0) {
    spec.insert("something_else");
  }
  Vals want = rules(was, ty, spec);
  HK_CTX("modify %s type=%s", desc.c_str(), ty.c_str());
  o.modifyOptions(ty, spec);
  string d = diff(want, values(o));
  string s;
  for (auto& x : spec) {
    s += x + ",";
  }
  if (!d.empty()) {
    hk::fail("modify", d + "| type '" + ty + "' specified " + s + " " + desc);
  }
  if (values(p) != was) {
    hk::fail("copy-shares", desc);
  }
  // what follows from the values
  if (o.shouldPreallocateFiles() != !o.disable_preallocation ||
      o.isLogBasedResumption() != (o.enable_download_resumption && !o.resume_using_dir_tree) ||
      o.isDirectoryTreeBasedResumption() != (o.enable_download_resumption && o.resume_using_dir_tree)) {
    hk::fail("derived", desc);
  }
  auto t = o.getThrottlerOptions();
  auto near = [](double a, double b) { return std::abs(a - b) <= 1e-9 * std::abs(b); };
  if (!near(t.avg_rate_per_sec, o.avg_mbytes_per_sec * 1048576) || !near(t.max_rate_per_sec, o.max_mbytes_per_sec * 1048576) ||
      !near(t.throttler_bucket_limit, o.throttler_bucket_limit * 1048576) ||
      t.throttler_log_time_millis != o.throttler_log_time_millis || t.single_request_limit != o.buffer_size) {
    hk::fail("throttler-options", desc);
  }
  hk::eval(hk::h64(desc + ty + s));
}

static string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return f ? s.str() : string("\1none");
}

// two applications, their senders and receivers, each with options of its own
static void isolation(hk::Rng& r, long idx) {
  string base = gDir + "/i" + std::to_string(idx);
  string rm = "rm -rf '" + base + "'";
  (void)!system(rm.c_str());
  mkdir(base.c_str(), 0755);
  string how;
  struct Side {
    WdtOptions* o;
    int ports;
    bool skip, over, enc;
    double block;
    Vals was;
    std::unique_ptr<Receiver> rcv;
    std::unique_ptr<Sender> snd;
    WdtTransferRequest req;
    string src, dst, body, old;
  } sd[2];
  Vals global = values(WdtOptions::get());
  static int serial = 0;
  for (int i = 0; i < 2; ++i) {
    Side& s = sd[i];
    s.src = base + "/s" + std::to_string(i);
    s.dst = base + "/d" + std::to_string(i);
    mkdir(s.src.c_str(), 0755);
    mkdir(s.dst.c_str(), 0755);
    size_t n = 1 + r.u(300000);
    s.body.resize(n);
    for (auto& c : s.body) {
      c = (char)r.u(256);
    }
    std::ofstream(s.src + "/f", std::ios::binary) << s.body;
    s.old = "before";
    std::ofstream(s.dst + "/f", std::ios::binary) << s.old;
    Wdt& w = Wdt::initializeWdt("app" + std::to_string(++serial));
    WdtOptions& o = w.getWdtOptions();
    Vals fresh = values(o);
    if (fresh != global) {
      hk::fail("app-not-default", "a new application does not start from the options of the process");
    }
    s.o = &o;
    o.num_ports = s.ports = 1 + r.u(4);
    o.skip_writes = s.skip = r.u(4) == 0;
    o.overwrite = s.over = r.u(2);
    s.enc = r.u(2);
    o.encryption_type = s.enc ? "aes128gcm" : "none";
    static const double bl[] = {-1, 0.0625, 0.25, 16};
    o.block_size_mbytes = s.block = bl[r.u(4)];
    o.buffer_size = (1 + r.u(4)) * 65536;
    o.read_timeout_millis = o.write_timeout_millis = 1500;
    o.abort_check_interval_millis = 50;
    o.max_transfer_retries = 1;
    o.start_port = 0;
    s.was = values(o);
    how += hk::fmt("[ports %d skip %d overwrite %d enc %d block %g size %zu] ", s.ports, s.skip, s.over, s.enc, s.block, n);
  }
  HK_CTX("isolation %s", how.c_str());
  if (values(*sd[0].o) != sd[0].was || values(WdtOptions::get()) != global) {
    hk::fail("app-shares", "options of one application changed another's: " + how);
  }
  for (auto& s : sd) {
    s.rcv.reset(new Receiver(0, s.ports, s.dst));
    s.rcv->setWdtOptions(*s.o);
    Vals at = values(s.rcv->getWdtOptions());
    if (at != s.was) {
      hk::fail("set-options", how);
    }
  }
  // a change after the receivers were made has no effect on them
  WdtOptions keep[2];
  for (int i = 0; i < 2; ++i) {
    keep[i].copyInto(*sd[i].o);
    sd[i].o->overwrite = !sd[i].over;
    sd[i].o->skip_writes = !sd[i].skip;
    sd[i].o->num_ports = 9;
    sd[i].o->encryption_type = sd[i].enc ? "none" : "aes128ctr";
  }
  for (auto& s : sd) {
    s.req = s.rcv->init();
    if (s.req.errorCode != OK) {
      hk::fail("iso-init", how);
      return;
    }
    if ((int)s.req.ports.size() != s.ports) {
      hk::fail("iso-ports", how);
    }
    if (s.req.encryptionData.isSet() != s.enc) {
      hk::fail("iso-encryption", how);
    }
    s.rcv->transferAsync();
  }
  for (int i = 0; i < 2; ++i) {
    Side& s = sd[i];
    WdtTransferRequest q = s.req;
    q.hostName = "127.0.0.1";
    q.directory = s.src;
    s.snd.reset(new Sender(q));
    s.snd->setWdtOptions(keep[i]);
    keep[i].block_size_mbytes = 0.01;
    if (s.snd->init().errorCode != OK) {
      hk::fail("iso-init", how);
      return;
    }
  }
  for (auto& s : sd) {
    s.snd->transferAsync();
  }
  for (int i = 0; i < 2; ++i) {
    Side& s = sd[i];
    auto sr = s.snd->finish();
    auto rr = s.rcv->finish();
    string now = slurp(s.dst + "/f");
    bool ok = sr->getSummary().getErrorCode() == OK;
    // an existing file may be replaced only by the one that was told so
    bool want = s.skip || s.over;
    string wantBody = s.skip ? s.old : s.over ? s.body : s.old;
    if (ok != want) {
      hk::fail("iso-outcome", hk::fmt("side %d ended with %s: ", i, errorCodeToStr(sr->getSummary().getErrorCode()).c_str()) + how);
    } else if (now != wantBody) {
      hk::fail("iso-content", hk::fmt("side %d: ", i) + how);
    }
    if (ok) {
      long nb = 1;
      if (s.block > 0) {
        long b = s.block * 1048576;
        nb = (s.body.size() + b - 1) / b;
      }
      if (sr->getSummary().getNumBlocks() != nb) {
        hk::fail("iso-blocks", hk::fmt("side %d: %ld blocks, not %ld: ", i, (long)sr->getSummary().getNumBlocks(), nb) + how);
      }
      hk::count("iso_transfers_ok");
    } else {
      hk::count("iso_transfers_refused");
    }
  }
  if (values(WdtOptions::get()) != global) {
    hk::fail("global-changed", how);
  }
  hk::eval(hk::h64(how));
  (void)!system(rm.c_str());
}

int main(int argc, char** argv) {
  hk::init();
  FLAGS_minloglevel = 4;
  string mode = hk::sarg(argc, argv, "mode");
  gDir = hk::sarg(argc, argv, "dir");
  long seed = hk::arg(argc, argv, "seed", 1), n = hk::arg(argc, argv, "n", 100), from = hk::arg(argc, argv, "from", 0);
  if (gDir.empty() && mode == "iso") {
    return 2;
  }
  std::ifstream t(hk::sarg(argc, argv, "table"));
  string l;
  while (std::getline(t, l)) {
    Opt o;
    std::istringstream s(l);
    std::getline(s, o.name, '\t');
    std::getline(s, o.type, '\t');
    std::getline(s, o.def, '\t');
    std::getline(s, o.disk, '\t');
    gTable.push_back(o);
  }
  for (long i = from; i < from + n; ++i) {
    hk::Rng r(seed * 1000003 + i);
    if (mode == "flags") {
      flags(r);
    } else if (mode == "modify") {
      modify(r);
    } else {
      isolation(r, i);
    }
  }
  return hk::done();
}
