// C25: counters, histograms, thread local histograms and performance reports
// against independent arithmetic over the recorded values.
#include <wdt/Reporting.h>
#include <wdt/util/Stats.h>
#include <algorithm>
#include <cinttypes>
#include <sstream>
#include <thread>
#include "hk.h"
using namespace facebook::wdt;
typedef std::vector<int64_t> V;
typedef __int128 i128;
template <class... A>
static void FL(const std::string& k, const char* f, A... a) {
  hk::fail(k, hk::fmt(f, a...));
}

static std::vector<int64_t> bounds() {
  return std::vector<int64_t>(Histogram::kHistogramBuckets, Histogram::kHistogramBuckets + Histogram::kLastIndex);
}
static std::vector<int64_t> docBounds() {
  std::vector<int64_t> b;
  auto seq = [&](int a, int z, int s) { for (int i = a; i <= z; i += s) b.push_back(i); };
  seq(1, 11, 1); seq(12, 20, 2); b.erase(std::unique(b.begin(), b.end()), b.end());
  seq(25, 50, 5); seq(60, 100, 10); seq(120, 200, 20); seq(250, 500, 50); seq(600, 1000, 100);
  for (int x : {2000, 3000, 4000, 5000, 7500, 10000, 20000, 30000, 40000, 50000, 75000, 100000}) b.push_back(x);
  return b;
}

static std::string sh(const V& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 30; i++) s += std::to_string(v[i]) + " ";
  return s + (v.size() > 30 ? "... " + std::to_string(v.size()) : "") + "]";
}
static std::string num(int64_t v) { std::ostringstream o; o << v; return o.str(); }

static void checkCounter(const Counter& c, const V& v, const std::string& how) {
  i128 sum = 0, sq = 0;
  int64_t mn = 0, rmn = 0, mx = 0;
  bool big = false;
  for (size_t i = 0; i < v.size(); i++) {
    sum += v[i];
    if (v[i] > INT32_MAX || v[i] < INT32_MIN) big = true; else sq += (i128)v[i] * v[i];
    if (v[i] && (!mn || v[i] < mn)) mn = v[i];
    rmn = i ? std::min(rmn, v[i]) : v[i];
    mx = i ? std::max(mx, v[i]) : v[i];
  }
  auto bad = [&](const char* what, double got, double want) {
    FL(std::string("counter-") + what + ":" + how, "%s got %.17g want %.17g values %s", what, got, want, sh(v).c_str());
  };
  if (c.getCount() != (int64_t)v.size()) bad("count", c.getCount(), v.size());
  if (c.getSum() != (int64_t)sum) bad("sum", c.getSum(), (double)sum);
  if (c.getMin() != mn) bad("min", c.getMin(), mn);
  if (c.getRealMin() != rmn) bad("realmin", c.getRealMin(), rmn);
  if (c.getMax() != mx) bad("max", c.getMax(), mx);
  if (v.empty()) {
    if (!std::isnan(c.getAverage())) bad("avg-empty", c.getAverage(), NAN);
    if (c.getStdDev() != 0) bad("stddev-empty", c.getStdDev(), 0);
  } else {
    double avg = (double)((long double)sum / v.size());
    if (std::fabs(c.getAverage() - avg) > 1e-12 * std::max(1.0, std::fabs(avg))) bad("avg", c.getAverage(), avg);
    if (!big && sum <= INT32_MAX && sum >= INT32_MIN && sq < ((i128)1 << 62)) {
      long double n = v.size(), var = ((long double)sq - (long double)sum * (long double)sum / n) / n;
      double s2 = c.getStdDev() * c.getStdDev();
      // the mean square is documented to be truncated to an integer
      long double tol = 1 / n + 1e-9L * ((long double)sq / n + 1);
      if (!(s2 >= var - tol && s2 <= var + tol)) bad("stddev", c.getStdDev(), std::sqrt((double)var));
      hk::count("stddev");
    }
  }
  hk::evalOnly();
}

static void checkPrintedCounter(const Counter& c, double scale, const V& v) {
  if (v.empty()) return;
  std::ostringstream os;
  os.precision(17);
  c.print(os, scale);
  double got[5];
  if (sscanf(os.str().c_str(), "%lf,%lf,%lf,%lf,%lf", &got[0], &got[1], &got[2], &got[3], &got[4]) != 5) {
    FL("counter-print-format", "%s", os.str().c_str());
    return;
  }
  double want[5] = {(double)c.getCount(), scale * c.getAverage(), scale * c.getMin(), scale * c.getMax(), scale * c.getStdDev()};
  for (int i = 0; i < 5; i++)
    if (std::fabs(got[i] - want[i]) > 1e-9 * std::max(1.0, std::fabs(want[i])))
      FL("counter-print", "field %d got %.17g want %.17g scale %g", i, got[i], want[i], scale);
}

static void checkHistogram(const Histogram& h, const V& v, int64_t div, int64_t off, double p1, double p2,
                           const std::string& how) {
  static const V B = docBounds();
  checkCounter(h, v, how);
  std::ostringstream os;
  h.print(os);
  std::string out = os.str();
  std::string ctx = hk::fmt("div %" PRId64 " off %" PRId64 " %s", div, off, sh(v).c_str());
  if (v.empty()) {
    if (out != "no data\n") FL("hist-print-empty:" + how, "%s", out.c_str());
    return;
  }
  V want(B.size() + 1, 0);
  for (int64_t x : v) {
    size_t i = 0;
    while (i < B.size() && (i128)x >= (i128)B[i] * div + off) i++;
    want[i]++;
  }
  size_t last = want.size() - 1;
  while (!want[last]) last--;
  std::istringstream is(out);
  std::string line;
  size_t row = 0;
  int64_t cum = 0;
  int targets = 0;
  std::getline(is, line);
  if (line.rfind("# count,avg,min,max,stddev," + num(v.size()) + ",", 0) != 0) FL("hist-print-head:" + how, "%s", line.c_str());
  std::getline(is, line);
  while (std::getline(is, line)) {
    if (line.rfind("# target ", 0) == 0) {
      double p = targets ? p2 : p1, a, b;
      if (sscanf(line.c_str(), "# target %lf%%,%lf", &a, &b) != 2 || std::fabs(a - p) > .051 ||
          std::fabs(b - h.calcPercentile(p)) > .051 + 1e-9 * std::fabs(b))
        FL("hist-print-target:" + how, "%s want %g %.17g", line.c_str(), p, h.calcPercentile(p));
      targets++;
      continue;
    }
    std::string pre;
    if (row > 0) pre += ">= " + num(div * B[row - 1] + off) + " ";
    if (row < B.size()) pre += "< " + num(div * B[row] + off) + " ";
    if (row >= want.size() || line.rfind(pre + ", ", 0) != 0) {
      FL("hist-print-range:" + how, "row %zu '%s' want '%s' %s", row, line.c_str(), pre.c_str(), ctx.c_str());
      return;
    }
    double mid, perc;
    long long n;
    if (sscanf(line.c_str() + pre.size(), ", %lf , %lf, %lld", &mid, &perc, &n) != 3) {
      FL("hist-print-format:" + how, "%s", line.c_str());
      return;
    }
    cum += want[row];
    if (n != want[row]) FL("hist-bucket:" + how, "row %zu has %lld want %" PRId64 " %s", row, n, want[row], ctx.c_str());
    double wp = 100.0 * cum / v.size();
    if (std::fabs(perc - wp) > 1e-4 * std::max(1.0, wp)) FL("hist-perc:" + how, "row %zu %g want %g", row, perc, wp);
    row++;
  }
  if (row != last + 1 || targets != 2) FL("hist-rows:" + how, "%zu rows want %zu, %d targets %s", row, last + 1, targets, ctx.c_str());
  int64_t mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end());
  if (h.calcPercentile(0) != mn || h.calcPercentile(-3) != mn) FL("hist-p0:" + how, "%g want %" PRId64, h.calcPercentile(0), mn);
  if (h.calcPercentile(100) != mx || h.calcPercentile(120) != mx) FL("hist-p100:" + how, "%g want %" PRId64, h.calcPercentile(100), mx);
  double prevVal = -INFINITY;
  for (double p : {.1, 1., 4., 10., 20., 20.1, 33.3, 50., 66.6, 75., 85., 90., 99., 99.9, 99.999}) {
    double got = h.calcPercentile(p);
    int64_t c = 0;
    size_t i = 0;
    for (; i < want.size(); i++) {
      c += want[i];
      if (100. * c / v.size() >= p) break;
    }
    double lo = i == 0 ? mn : std::max<double>(mn, div * B[i - 1] + off);
    double hi = i >= B.size() ? mx : std::min<double>(mx, div * B[i] + off);
    double tol = 1e-9 * (std::fabs(lo) + std::fabs(hi) + 1) + 1e-6 * std::fabs(hi - lo);
    if (!(got >= lo - tol && got <= hi + tol))
      FL("hist-percentile:" + how, "p%g is %.17g outside bucket [%.17g,%.17g] %s", p, got, lo, hi, ctx.c_str());
    if (got < prevVal - tol) FL("hist-percentile-order:" + how, "p%g %.17g < %.17g %s", p, got, prevVal, ctx.c_str());
    prevVal = got;
    hk::evalOnly();
  }
}

static int64_t rawValue(hk::Rng& r, int kind, int64_t div, int64_t off) {
  static const V B = docBounds();
  switch (kind) {
    case 0: return off + div * B[r.u(B.size())] + (int64_t)r.u(3) - 1;
    case 1: return (int64_t)r.u(12) - 3;
    case 2: return off + (int64_t)r.u(200000) * div / 10;
    case 3: return -(int64_t)r.u(1000) - 1;
    case 4: return (int64_t)(r.next() >> (20 + r.u(44))) * (r.u(2) ? 1 : -1);
    case 5: return 0;
    case 6: return off + div * (int64_t)r.u(20);
    case 7: return off + (int64_t)INT32_MAX + (int64_t)r.u(5) - 2;
    default: return (int64_t)(r.next() & 0xffff) - 0x8000;
  }
}

// keeps sums and sums of squares of a history within 64 bits (documented limit)
static int64_t value(hk::Rng& r, int kind, int64_t div, int64_t off) {
  int64_t v = rawValue(r, kind, div, off);
  return std::llabs(v) > (1 << 25) && std::llabs(v) < (1LL << 32) ? v * 256 : v;
}

static V values(hk::Rng& r, int64_t div, int64_t off, int maxn) {
  V v;
  int n = r.u(8) == 0 ? 0 : r.u(4) == 0 ? 1 + r.u(3) : 1 + r.u(maxn);
  int kinds = 1 + r.u(3);
  int k[3] = {(int)r.u(9), (int)r.u(9), (int)r.u(9)};
  for (int i = 0; i < n; i++) v.push_back(value(r, k[r.u(kinds)], div, off));
  return v;
}

static void hist(uint64_t seed) {
  hk::Rng r(seed);
  static const int64_t divs[] = {1, 1, 2, 7, 10, 100, 1000, 10000000, INT32_MAX};
  static const int64_t offs[] = {0, 0, 1, -1, 100, -100, 7000, 10000000000LL, -123456789, -10000000000LL};
  int64_t div = divs[r.u(9)], off = offs[r.u(10)];
  double p1 = r.u(1001) / 10.0, p2 = r.u(1001) / 10.0;
  bool setp = r.u(2);
  std::vector<std::unique_ptr<Histogram>> hs;
  std::vector<V> model;
  auto fresh = [&]() {
    auto h = std::make_unique<Histogram>((int32_t)div, setp ? 85.0 : p1, setp ? 99.9 : p2, off);
    if (setp) { h->setPercentile1(p1); h->setPercentile2(p2); }
    hs.push_back(std::move(h));
    model.emplace_back();
  };
  int n = 1 + r.u(4);
  for (int i = 0; i < n; i++) fresh();
  int ops = 1 + r.u(10);
  std::string trace;
  for (int o = 0; o < ops; o++) {
    size_t a = r.u(n), b = r.u(n);
    switch (r.u(n > 1 ? 6 : 4)) {
      case 0: case 1: case 2: {
        V v = values(r, div, off, r.u(6) == 0 ? 3000 : 40);
        for (int64_t x : v) { hs[a]->record(x); model[a].push_back(x); }
        trace += "r";
        break;
      }
      case 3:
        if (r.u(3) == 0) { hs[a]->reset(); model[a].clear(); trace += "0"; hk::count("hist.reset"); }
        break;
      default:
        if (a != b && model[a].size() + model[b].size() < 4000) {
          if (model[a].empty()) hk::count("merge.into-empty");
          if (model[b].empty()) hk::count("merge.of-empty");
          hs[a]->merge(*hs[b]);
          model[a].insert(model[a].end(), model[b].begin(), model[b].end());
          trace += "m";
          hk::count("hist.merge");
        }
    }
    snprintf(hk::ctxbuf(), 200, "hist seed=%" PRIu64 " op %d %s", seed, o, trace.c_str());
  }
  bool merged = trace.find('m') != std::string::npos, res = trace.find('0') != std::string::npos;
  for (int i = 0; i < n; i++) {
    hk::eval(std::hash<std::string>()(trace) * 31 + seed);
    checkHistogram(*hs[i], model[i], div, off, p1, p2, merged ? "merged" : res ? "reset" : "plain");
  }
  // the counter on its own, with its scale
  Counter c(r.u(2) ? 1.0 : .5), d;
  V cv = values(r, 1, 0, 60), dv = values(r, 1, 0, 60);
  hk::count("counter");
  for (auto x : cv) c.record(x);
  for (auto x : dv) d.record(x);
  checkCounter(c, cv, "plain");
  if (std::all_of(cv.begin(), cv.end(), [](int64_t x) { return std::llabs(x) < (1LL << 40); }))
    checkPrintedCounter(c, std::vector<double>{1, 2, .25, 1000, 1e-3}[r.u(5)], cv);
  d.merge(c);
  dv.insert(dv.end(), cv.begin(), cv.end());
  checkCounter(d, dv, "merged");
}

// ---- thread local histograms: nothing recorded is lost or counted twice
static void tl(uint64_t seed) {
  hk::Rng r(seed);
  int32_t scale = std::vector<int32_t>{1, 10, 100}[r.u(3)];
  bool periodic = r.u(2);
  int threads = 1 + r.u(5), rounds = 1 + r.u(4);
  std::mutex mu;
  V got_via_cb;
  std::vector<std::string> printed;
  Histogram all(scale);
  Counter ctr;
  auto h = std::make_unique<ThreadLocalHistogram>(scale, periodic ? [&](const Histogram& x) {
    std::lock_guard<std::mutex> g(mu);
    all.merge(x);
    std::ostringstream os; x.print(os); printed.push_back(os.str());
  } : std::function<void(const Histogram&)>());
  ThreadLocalCounter tc(2.0, periodic ? [&](const Counter& x) {
    std::lock_guard<std::mutex> g(mu);
    ctr.merge(x);
    std::ostringstream os, o2; x.print(os); x.print(o2, 2.0);
    if (os.str() != o2.str()) FL("threadlocal-print-scale", "%s vs %s", os.str().c_str(), o2.str().c_str());
  } : std::function<void(const Counter&)>());
  V model;
  {
    std::unique_ptr<PeriodicCounters> pc;
    if (periodic) pc = std::make_unique<PeriodicCounters>(std::vector<SwapableNode*>{h.get(), &tc});
    for (int k = 0; k < rounds; k++) {
      std::vector<V> vs(threads);
      for (auto& v : vs) v = values(r, scale, 0, 60);
      std::atomic<int> done{0};
      std::mutex m; std::condition_variable cv; bool go = false;
      std::vector<std::thread> ts;
      bool die = r.u(2);   // read with the recorders gone, or still there
      for (auto& v : vs)
        ts.emplace_back([&, die] {
          for (auto x : v) { h->record(x); tc.record(x); }
          done++;
          std::unique_lock<std::mutex> l(m);
          cv.notify_all();
          if (!die) cv.wait(l, [&] { return go; });
        });
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return done == threads; });
      }
      if (die) for (auto& t : ts) t.join();
      for (int i = 0, z = 1 + r.u(3); i < z; i++) {
        if (periodic) pc->swapAndRead(r.u(2));
        else { h->readAndReset(all, r.u(2)); tc.readAndReset(ctr, r.u(2)); }
      }
      for (auto& v : vs) model.insert(model.end(), v.begin(), v.end());
      std::string how = std::string("threadlocal-") + (periodic ? "periodic" : "read") + (die ? "-exited" : "");
      if (all.getCount() != (int64_t)model.size()) FL(how + "-lost", "histogram saw %" PRId64 " of %zu", all.getCount(), model.size());
      else checkHistogram(all, model, scale, 0, 85, 99.9, how);
      checkCounter(ctr, model, how);
      if (!die) {
        { std::lock_guard<std::mutex> l(m); go = true; }
        cv.notify_all();
        for (auto& t : ts) t.join();
      }
      hk::eval(seed * 8 + k);
      hk::count(die ? "tl.exited" : "tl.alive", threads);
    }
  }
  for (auto& p : printed) {
    auto q = p.find("< ");
    if (q != std::string::npos && atoi(p.c_str() + q + 2) != scale)
      FL("threadlocal-callback-scale", "scale %d printed as %s", scale, p.substr(q, 60).c_str());
  }
}

// a timer reading while nobody records (the documented, exact case)
static void timer(uint64_t seed) {
  hk::Rng r(seed);
  std::atomic<int64_t> total{0};
  V v = values(r, 1, 0, 50);
  ThreadLocalHistogram h(1, [&](const Histogram& x) { total += x.getCount(); });
  for (auto x : v) h.record(x);
  {
    PeriodicCounters pc({&h});
    if (!pc.schedule(.001)) FL("periodic-schedule", "no thread");
    usleep(3000 + r.u(5000));
  }
  {
    PeriodicCounters pc({&h});   // destructor alone reads the other side
  }
  if (total != (int64_t)v.size()) FL("periodic-lost", "%" PRId64 " of %zu", total.load(), v.size());
  hk::eval(seed ^ 0x7171);
}

// ---- performance reports
static const char* kNames[] = {"Socket Read", "Socket Write", "File Open", "File Close", "File Read", "File Write",
                               "Sync File Range", "fsync", "File Seek", "Throttler Sleep", "Receiver Wait Sleep",
                               "Directory creation", "Ioctl", "Unlink", "Fadvise"};
static void checkPerf(const PerfStatReport& p, const std::vector<V>& m, const std::string& how) {
  static const V B = docBounds();
  std::ostringstream os;
  os << p;
  std::istringstream is(os.str());
  std::string line;
  std::vector<std::string> lines;
  while (std::getline(is, line)) {
    auto q = line.find("wdt>");
    if (q != std::string::npos) line = line.substr(q + 4);
    while (!line.empty() && (line[0] == ' ' || line[0] == '\t')) line.erase(0, 1);
    lines.push_back(line);
  }
  size_t k = 1;
  for (size_t t = 0; t < m.size(); t++) {
    V v = m[t];
    if (v.empty()) continue;
    std::sort(v.begin(), v.end());
    if (k >= lines.size()) { FL("perf-missing:" + how, "%s\n%s", kNames[t], os.str().c_str()); return; }
    double sum = 0;
    for (auto x : v) sum += x;
    auto rank = [&](double f) { size_t n = std::max<int64_t>(1, (int64_t)(v.size() * f)); return v[n - 1] / 1000; };
    double ds, dmin, dmax, davg; long long n, p50 = -1, p95 = -1, p99 = -1;
    std::string head = std::string(kNames[t]) + " : ";
    if (lines[k].rfind(head, 0) != 0 ||
        sscanf(lines[k].c_str() + head.size(), "Ncalls %lld Stats in ms : sum %lf Min %lf Max %lf Avg %lf p50 %lld p95 %lld p99 %lld",
               &n, &ds, &dmin, &dmax, &davg, &p50, &p95, &p99) < 5) {
      FL("perf-format:" + how, "%s", lines[k].c_str());
      return;
    }
    auto near = [](double a, double b) { return std::fabs(a - b) <= .0051 + 1e-9 * std::fabs(b); };
    std::string w = hk::fmt("line '%s' values %s", lines[k].c_str(), sh(v).c_str());
    if (n != (long long)v.size()) FL("perf-count:" + how, "%s", w.c_str());
    if (!near(ds, sum / 1000)) FL("perf-sum:" + how, "%s", w.c_str());
    if (!near(dmin, v.front() / 1000.0)) FL("perf-min:" + how, "%s", w.c_str());
    if (!near(dmax, v.back() / 1000.0)) FL("perf-max:" + how, "%s", w.c_str());
    if (!near(davg, sum / v.size() / 1000)) FL("perf-avg:" + how, "%s", w.c_str());
    // the rank may be rounded either way
    auto rankUp = [&](double f) { size_t n2 = std::min<size_t>(v.size(), (size_t)std::ceil(v.size() * f) + 1); return v[n2 - 1] / 1000; };
    if (p50 < rank(.5) || p50 > rankUp(.5)) FL("perf-p50:" + how, "%s", w.c_str());
    if (p95 < rank(.95) || p95 > rankUp(.95)) FL("perf-p95:" + how, "%s", w.c_str());
    if (p99 < rank(.99) || p99 > rankUp(.99)) FL("perf-p99:" + how, "%s", w.c_str());
    k++;
    std::map<std::pair<int64_t, int64_t>, int64_t> want, got;
    for (auto x : v) {
      int64_t ms = x / 1000;
      size_t i = 0;
      while (i < B.size() && ms >= B[i]) i++;
      want[{i ? B[i - 1] : 0, i < B.size() ? B[i] : INT64_MAX}]++;
    }
    for (; k < lines.size(); k++) {
      long long a, b, c;
      if (sscanf(lines[k].c_str(), "[%lld, %lld) --> %lld", &a, &b, &c) != 3) break;
      got[{a, b}] += c;
    }
    if (got != want) FL("perf-buckets:" + how, "%s\n%s", w.c_str(), os.str().c_str());
    hk::evalOnly();
  }
}

static void perf(uint64_t seed, bool conc) {
  hk::Rng r(seed);
  WdtOptions opt;
  opt.read_timeout_millis = 1000000000 / 1000;
  opt.write_timeout_millis = opt.read_timeout_millis;
  int n = 1 + r.u(5);
  std::vector<std::unique_ptr<PerfStatReport>> ps;
  std::vector<std::vector<V>> ms(n, std::vector<V>(PerfStatReport::END));
  for (int i = 0; i < n; i++) ps.push_back(std::make_unique<PerfStatReport>(opt));
  auto gen = [&](hk::Rng& q) -> int64_t {
    static const V B = docBounds();
    switch (q.u(5)) {
      case 0: return q.u(3000);
      case 1: return B[q.u(B.size())] * 1000 + (int64_t)q.u(3) - 1;
      case 2: return q.u(200000000);
      case 3: return q.u(20) * 1000;
      default: return q.u(1000000);
    }
  };
  if (!conc) {
    for (int i = 0; i < n; i++)
      for (int t = 0; t < PerfStatReport::END; t++) {
        int k = r.u(3) ? 0 : r.u(3) == 0 ? 1 + r.u(2) : 1 + r.u(150);
        for (int j = 0; j < k; j++) {
          int64_t x = gen(r);
          ps[i]->addPerfStat((PerfStatReport::StatType)t, x);
          ms[i][t].push_back(x);
        }
      }
    for (int i = 0; i < n; i++) checkPerf(*ps[i], ms[i], "plain");
  } else {
    std::vector<std::vector<std::vector<V>>> per(4, ms);
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    for (int w = 0; w < 4; w++)
      ts.emplace_back([&, w] {
        hk::Rng q(seed * 7 + w);
        for (int j = 0; j < 400; j++) {
          int i = q.u(n), t = q.u(PerfStatReport::END);
          int64_t x = gen(q);
          ps[i]->addPerfStat((PerfStatReport::StatType)t, x);
          per[w][i][t].push_back(x);
        }
      });
    std::thread reader([&] {
      while (!stop) {
        PerfStatReport sum(opt);
        for (auto& p : ps) sum += *p;
        std::ostringstream os;
        os << sum << *ps[0];
        hk::count("perf.read-while-written");
      }
    });
    for (auto& t : ts) t.join();
    stop = true;
    reader.join();
    for (auto& p : per)
      for (int i = 0; i < n; i++)
        for (int t = 0; t < PerfStatReport::END; t++) ms[i][t].insert(ms[i][t].end(), p[i][t].begin(), p[i][t].end());
    for (int i = 0; i < n; i++) checkPerf(*ps[i], ms[i], "concurrent");
  }
  PerfStatReport sum(opt);
  std::vector<V> msum(PerfStatReport::END);
  for (int i = 0; i < n; i++) {
    sum += *ps[i];
    for (int t = 0; t < PerfStatReport::END; t++) msum[t].insert(msum[t].end(), ms[i][t].begin(), ms[i][t].end());
  }
  checkPerf(sum, msum, "merged");
  hk::eval(seed * 2 + conc);
  hk::count(conc ? "perf.concurrent" : "perf.sequential");
}

int main(int argc, char** argv) {
  hk::init();
  uint64_t seed = hk::arg(argc, argv, "seed", 1);
  long n = hk::arg(argc, argv, "n", 1000);
  std::string mode = hk::sarg(argc, argv, "mode", "hist");
  if (bounds() != docBounds()) FL("bucket-table", "the bucket bounds are not the documented ones");
  for (long i = 0; i < n; i++) {
    uint64_t s = seed * 1000003ull + i;
    snprintf(hk::ctxbuf(), 200, "mode=%s seed=%" PRIu64, mode.c_str(), s);
    if (mode == "hist") hist(s);
    else if (mode == "tl") { tl(s); if (i % 20 == 0) timer(s); }
    else if (mode == "perf") perf(s, false);
    else perf(s, true);
  }
  hk::done();
  return 0;
}
