"""The planted bugs of /verif/seeded: S[id] = property, edits, demonstration."""
S = {}


def s(i, prop, needs, breaks, edits, demo, kit=None, **files):
    S[i] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, kit=kit,
                files={k.replace("__", "."): v for k, v in files.items()})


def unit(i, prop, needs, breaks, edits, cpp):
    """a demonstration that is one C++ file, exit status of its main"""
    s(i, prop, needs, breaks, edits,
      'build demo "$K/demo.cpp"\nGLOG_minloglevel=4 timeout 60 "$W/demo"\nr=$?; echo "demo exit $r"; exit $r\n', "unit", demo__cpp=cpp)


unit("c25-merge-last-bucket", "C25", "a value beyond the last bucket bound recorded in a histogram that is merged into another",
     "merging histograms drops the count of the last, open bucket",
     [("util/Stats.cpp", "  for (size_t i = 0; i <= kLastIndex; ++i) {\n    hdata_[i] += h.hdata_[i];",
       "  for (size_t i = 0; i < kLastIndex; ++i) {\n    hdata_[i] += h.hdata_[i];")],
     r'''
#include <wdt/util/Stats.h>
#include <sstream>
using namespace facebook::wdt;
int main() {
  Histogram a, b, c;
  for (int64_t v : {3, 17, 200000, 100000}) { (v < 100 ? a : b).record(v); c.record(v); }
  a.merge(b);
  std::ostringstream x, y;
  a.print(x); c.print(y);
  if (x.str() != y.str()) { printf("merged:\n%s\ndirect:\n%s\n", x.str().c_str(), y.str().c_str()); return 1; }
  return 0;
}
''')

unit("c20-barrier-deregister-wakes-one", "C20", "two or more threads waiting at a barrier when the last missing thread deregisters",
     "a barrier completed by a deregistration releases only one of its waiters",
     [("util/ThreadsController.cpp", "  --numThreads_;\n  checkForFinish();",
       "  --numThreads_;\n  if (numHits_ == numThreads_) {\n    isComplete_ = true;\n    cv_.notify_one();\n  }")],
     r'''
#include <wdt/util/ThreadsController.h>
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace facebook::wdt;
int main() {
  ThreadsController c(3);
  c.setNumBarriers(1);
  auto b = c.getBarrier(0);
  for (int i = 0; i < 3; i++) c.registerThread(i);
  std::atomic<int> out{0};
  std::thread t1([&] { b->execute(); out++; }), t2([&] { b->execute(); out++; });
  usleep(300000);
  c.deRegisterThread(2);
  for (int i = 0; i < 100 && out < 2; i++) usleep(50000);
  if (out < 2) { printf("%d of 2 left the barrier\n", out.load()); fflush(stdout); _exit(1); }
  t1.join(); t2.join();
  return 0;
}
''')

unit("c18-burst-after-idle", "C18", "an idle period longer than bucket/rate followed by two requests in a row",
     "the first request after an idle period is not charged against the token bucket",
     [("Throttler.cpp", """    if (tokenBucket_ > tokenBucketLimit_) {
      tokenBucket_ = tokenBucketLimit_;
    }
    tokenBucket_ -= deltaProgress;
    if (tokenBucket_ < 0) {""", """    tokenBucket_ -= deltaProgress;
    if (tokenBucket_ > tokenBucketLimit_) {
      tokenBucket_ = tokenBucketLimit_;
    }
    if (tokenBucket_ < 0) {""")],
     r'''
#include <wdt/Throttler.h>
using namespace facebook::wdt;
struct T : Throttler { using Throttler::Throttler; using Throttler::calculateSleep; };
int main() {
  ThrottlerOptions o;
  o.avg_rate_per_sec = -1;
  o.max_rate_per_sec = 1000;
  o.throttler_bucket_limit = 100;
  o.single_request_limit = 1;
  T t(o);
  t.startTransfer();
  auto now = Clock::now() + std::chrono::seconds(10);
  double total = 0;
  for (int i = 0; i < 3; i++) total += std::max(0.0, t.calculateSleep(100, now));
  // 300 units with a bucket of 100 at 1000/s: the debt is 200, then asked 0.1 + 0.2
  if (total < 0.29) { printf("only %g s of sleep asked\n", total); return 1; }
  return 0;
}
''')

s("c26-pair-across-buffer", "C26", "input longer than 64 KB: the pair that spans a read buffer boundary",
  "byte pairs spanning a read buffer boundary are not counted",
  [("bench/wdtStats.cpp", """  while ((c = getchar_unlocked()) >= 0) {
    Bigram b(prev, c);
    ++map[b];
    prev = c;
  }
""", """  static char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), stdin)) > 0) {
    for (size_t i = 0; i < n; ++i) {
      c = static_cast<unsigned char>(buf[i]);
      if (i > 0 || prev == first) {
        Bigram b(prev, c);
        ++map[b];
      }
      prev = c;
    }
  }
""")],
  r'''W=$(mktemp -d /tmp/wdtdemo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir -p $W/gen/wdt; ln -s "$PWD" $W/gen/../inc; mkdir -p $W/i; ln -s "$PWD" $W/i/wdt
sed -e 's/@WDT_VERSION_[A-Z]*@/1/; s/@WDT_VERSION@/1.1.1/' -e 's/^#cmakedefine \([A-Z_0-9]*\)/#define \1/' WdtConfig.h.in > $W/gen/wdt/WdtConfig.h
g++ -std=gnu++17 -O1 -w -include cstdint -include algorithm -DGFLAGS_NAMESPACE=gflags -I$W/gen -I$W/i bench/wdtStats.cpp bench/Bigram.cpp -o $W/stats -lgflags -lglog -lpthread || exit 3
python3 - "$W" <<'P'
import subprocess, sys, struct, random, collections
w = sys.argv[1]
d = random.Random(4).randbytes(300000)
o = subprocess.run([w + "/stats", "-binary"], input=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
got = {o[i:i+2]: struct.unpack("<I", o[i+2:i+6])[0] for i in range(0, len(o), 6)}
want = collections.Counter(d[i:i+2] for i in range(len(d) - 1))
print(sum(got.values()), sum(want.values()))
sys.exit(got != dict(want))
P
''')

# a transfer over the fault-injecting relay; python drives it
XFER = r'''build xfer "$K/xfer.cpp"
W=$W K=$K GLOG_minloglevel=4 TZ=UTC timeout 250 python3 "$K/demo.py"
r=$?; echo "demo exit $r"; exit $r
'''
XPRE = r'''import os, sys, json, subprocess, random, shutil
W = os.environ["W"]
def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if ".wdt.log" not in f:
                out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out
def put(root, files):
    for n, b in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(b)
def fresh(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d
def xfer(*a):
    r = subprocess.run([W + "/xfer"] + list(a), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
    try:
        return r.returncode, json.loads(r.stdout.decode("latin-1").strip().splitlines()[-1].replace("JSON ", "", 1))
    except Exception:
        return r.returncode, None
'''


def xfer(i, prop, needs, breaks, edits, py):
    s(i, prop, needs, breaks, edits, XFER, "xfer", demo__py=XPRE + py)


unit("c02-wrong-block-advanced", "C02", "two failures of one connection, the second before anything of a later block of the same file arrived",
     "the received bytes of an earlier block are subtracted from a later block of the same file: a hole in it",
     [("util/ThreadTransferHistory.cpp", "(checkpoint->lastBlockOffset == source->getOffset())", "(checkpoint->lastBlockOffset <= source->getOffset())")],
     r'''
#include <wdt/util/ThreadTransferHistory.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
using namespace facebook::wdt;
struct N : IAbortChecker { bool shouldAbort() const override { return false; } };
int main() {
  char d[] = "/tmp/wdtdemoq.XXXXXX";
  if (!mkdtemp(d)) return 3;
  std::string p = d;
  int fd = open((p + "/f").c_str(), O_CREAT | O_WRONLY, 0644);
  if (ftruncate(fd, 3 * 1048576)) return 3;
  close(fd);
  WdtOptions opt;
  opt.block_size_mbytes = 1;
  N na;
  ThreadCtx ctx(opt, true);
  ctx.setAbortChecker(&na);
  DirectorySourceQueue q(opt, d, &na);
  q.setBlockSizeMbytes(1);
  q.buildQueueSynchronously();
  ThreadTransferHistory h(q, *new TransferStats(), 1);
  ErrorCode e;
  auto src = q.getNextSource(&ctx, e);   // a later block of the file
  while (src && src->getOffset() != 1048576) src = q.getNextSource(&ctx, e);
  TransferStats st;
  st.addDataBytes(src->getSize());
  src->addTransferStats(st);
  int64_t seq = src->getMetaData().seqId;
  h.addSource(src);
  Checkpoint c;
  c.port = 1;
  c.numBlocks = 0;
  c.hasSeqId = true;
  c.lastBlockSeqId = seq;
  c.lastBlockOffset = 0;                 // what was received is of the first block
  c.lastBlockReceivedBytes = 400;
  h.setLocalCheckpoint(c);
  int bad = 1;
  while ((src = q.getNextSource(&ctx, e))) {
    printf("offset %ld size %ld\n", (long)src->getOffset(), (long)src->getSize());
    if (src->getOffset() == 1048576 && src->getSize() == 1048576) bad = 0;
  }
  unlink((p + "/f").c_str());
  rmdir(d);
  return bad;
}
''')
