// The rate limiter: simulated threads in virtual time against the documented
// limits, splitting of large requests, registration, and a real-time stress.
#include <algorithm>
#include <cmath>
#include <queue>
#include <thread>
#include "hk.h"
#include "wdt/Throttler.h"
#include "wdt/WdtBase.h"
#include "wdt/WdtThread.h"
using namespace facebook::wdt;
using std::string;
using std::vector;

static double eff(double avg, double peak) {
  return peak >= 0 && peak < avg ? 1.2 * avg : peak;
}
static bool near(double a, double b) {
  return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b));
}
static double rate(hk::Rng& r) {
  double v = std::pow(10.0, r.in(0, 90) / 10.0);
  return r.p(30) ? std::floor(v) + 1 : v;
}
struct Cfg {
  double avg, peak, bucket;
  int64_t limit;
  string str() const {
    return hk::fmt("avg=%.17g peak=%.17g bucket=%.17g limit=%ld", avg, peak, bucket, limit);
  }
};
static Cfg cfg(hk::Rng& r) {
  Cfg c;
  c.avg = r.p(70) ? rate(r) : (r.p(50) ? -1 : 0);
  switch (r.in(0, 5)) {
    case 0: c.peak = 0; break;
    case 1: c.peak = -1; break;
    case 2: c.peak = c.avg > 0 ? c.avg * (1 + r.in(0, 300) / 100.0) : rate(r); break;
    default: c.peak = rate(r);
  }
  c.bucket = r.p(40) ? (r.p(50) ? 0 : -1) : rate(r);
  c.limit = r.p(30) ? 1 + r.in(0, 20) : 1 + (int64_t)rate(r);
  return c;
}
static ThrottlerOptions topts(const Cfg& c) {
  ThrottlerOptions o;
  o.avg_rate_per_sec = c.avg;
  o.max_rate_per_sec = c.peak;
  o.throttler_bucket_limit = c.bucket;
  o.single_request_limit = c.limit;
  return o;
}

struct Probe : Throttler {
  using Throttler::Throttler;
  vector<double> asked;
  double answer{-1};
  bool real{true};
  double calculateSleep(double d, const Clock::time_point& n) override {
    asked.push_back(d);
    return real ? Throttler::calculateSleep(d, n) : answer;
  }
};

// what the configured rates must be
static void rates(Throttler& t, const Cfg& c, const char* where) {
  double peak = eff(c.avg, c.peak);
  double bucket = c.bucket <= 0 && peak > 0 ? 0.5 * peak : c.bucket;
  hk::evalOnly();
  if (!near(t.getAvgRatePerSec(), c.avg) && (c.avg > 0 || t.getAvgRatePerSec() > 0)) {
    hk::fail(string("avg-rate:") + where, c.str() + hk::fmt(" reports %.17g", t.getAvgRatePerSec()));
  }
  if (!near(t.getPeakRatePerSec(), peak) && (peak > 0 || t.getPeakRatePerSec() > 0)) {
    hk::fail(string("peak-rate:") + where, c.str() + hk::fmt(" reports %.17g", t.getPeakRatePerSec()));
  }
  if (peak > 0 && !near(t.getBucketLimit(), bucket)) {
    hk::fail(string("bucket:") + where, c.str() + hk::fmt(" reports %.17g", t.getBucketLimit()));
  }
}

struct Emit {
  double at, n;
};

// Base time of the throttler's state, known to within `slop` seconds.
template <class F>
static Clock::time_point base(F&& reset, double& slop) {
  Clock::time_point b;
  for (int i = 0; i < 50; ++i) {
    auto a = Clock::now();
    reset();
    b = Clock::now();
    slop = std::chrono::duration<double>(b - a).count();
    if (slop >= 0 && slop < 30e-6) {
      break;
    }
  }
  return b;
}

static void simulate(hk::Rng& r, bool set) {
  Cfg c = cfg(r);
  Cfg c0 = set ? cfg(r) : c;
  c0.limit = c.limit;
  auto t = std::make_shared<Throttler>(topts(c0));
  if (r.p(50)) {
    t = Throttler::makeThrottler(topts(c0));
  }
  rates(*t, c0, "new");
  t->startTransfer();
  double slop = 0;
  Clock::time_point b;
  if (set) {
    bool viaOpts = r.p(50);
    // something happened before at the old rates
    for (int i = r.in(0, 5); i > 0; --i) {
      t->calculateSleep(r.in(1, 100000), Clock::now());
    }
    b = base(
        [&] {
          if (viaOpts) {
            t->setThrottlerRates(topts(c));
          } else {
            double a = c.avg, p = c.peak, k = c.bucket;
            t->setThrottlerRates(a, p, k);
            double pe = eff(c.avg, c.peak);
            if (!near(a, c.avg) || (pe > 0 && !near(p, pe))) {
              hk::fail("set-rates-reported", c.str() + hk::fmt(" -> %.17g %.17g", a, p));
            }
          }
        },
        slop);
    rates(*t, c, "set");
    t->startTransfer();  // a further user changes nothing
    if (r.p(50)) {
      t->endTransfer();
    }
  } else {
    b = base(
        [&] {
          t->endTransfer();
          t->startTransfer();
        },
        slop);
  }
  double avg = c.avg > 0 ? c.avg : -1;
  double peak = eff(c.avg, c.peak);
  double bucket = c.bucket <= 0 ? 0.5 * peak : c.bucket;
  if (peak <= 0) {
    peak = -1;
  }
  int N = r.p(30) ? 1 : r.in(2, 12);
  double ref = avg > 0 ? avg : (peak > 0 ? peak : 1e6);
  int64_t big = c.limit;
  if (r.p(70)) {
    big = std::max<int64_t>(1, std::min<int64_t>(c.limit, (int64_t)(ref * (1 + r.in(0, 500)) / 1000.0)));
  }
  int style = r.in(0, 4);
  struct Ev {
    double at;
    int th;
    bool operator<(const Ev& o) const {
      return at > o.at;
    }
  };
  std::priority_queue<Ev> q;
  for (int i = 0; i < N; ++i) {
    q.push({r.p(50) ? 0 : r.in(0, 1000) / 1000.0, i});
  }
  vector<Emit> em;
  double total = 0, ub = bucket, ubAt = 0, lb = 0, lbAt = 0, maxReq = 0, maxAt = 0;
  string hist = c.str() + hk::fmt(" N=%d style=%d", N, style);
  uint64_t h = hk::h64(hist);
  int K = r.in(5, 250), sleeps = 0, free_ = 0;
  double lull = 0;
  int needed = 0;
  for (int k = 0; k < K; ++k) {
    Ev e = q.top();
    q.pop();
    if (style == 3 && k == K / 2) {
      lull = r.in(1, 50) / 2.0;  // everybody idle, then catching up
    }
    e.at += lull;
    double d = r.p(20) ? big : r.in(1, big);
    if (r.p(3)) {
      d = 0;
    }
    maxReq = std::max(maxReq, d);
    auto now = b + std::chrono::nanoseconds((int64_t)(e.at * 1e9));
    double at = ((int64_t)(e.at * 1e9)) / 1e9;
    double s = t->calculateSleep(d, now);
    hk::evalOnly();
    total += d;
    double at2 = at + slop;  // the real start may be that much earlier
    double tot = t->getProgress();
    if (!near(tot, total)) {
      hk::fail("progress", hist + hk::fmt(" progress %.17g instead of %.17g", tot, total));
    }
    if (std::isnan(s) || std::isinf(s)) {
      hk::fail("sleep-nan", hist + hk::fmt(" step %d at %.9f sleep %.17g", k, at, s));
      return;
    }
    // tokens that are there for certain, charging every request
    if (peak > 0) {
      lb = std::min(bucket, lb + (at - lbAt) * peak) - d;
      lbAt = at;
    }
    double tol = 1e-6 + slop * 2;
    // tokens that are there at most, charging what the average lets through
    if (peak > 0) {
      ub = std::min(bucket, ub + (at - ubAt) * peak);
      ubAt = at;
      if (avg < 0 || total <= avg * at * (1 - 1e-9)) {
        ub -= d;
        double minSleep = -ub / peak;
        if (std::max(s, 0.0) < minSleep * (1 - 1e-6) - tol - 1e-12 * at) {
          hk::fail("sleeps-too-little", hist + hk::fmt(" step %d at %.9f delta %.0f: sleep %.9g, %.9g needed by the bucket", k, at, d, s,
                                                       minSleep));
          return;
        }
        if (minSleep > 0) {
          ++needed;
        }
      }
    }
    double maxSleep = 0;
    if (avg > 0) {
      maxSleep = std::max(maxSleep, total / avg - at);
    }
    if (peak > 0) {
      maxSleep = std::max(maxSleep, -lb / peak);
    }
    if (s > maxSleep * (1 + 1e-9) + tol) {
      hk::fail(maxSleep > 0 ? "sleeps-too-long" : "sleeps-below-limits",
               hist + hk::fmt(" step %d at %.9f delta %.0f total %.0f: sleep %.9g, at most %.9g needed", k, at, d, total, s,
                              maxSleep));
      return;
    }
    if (avg < 0 && peak < 0 && s > 0) {
      hk::fail("sleeps-unlimited", hist);
    }
    s > 0 ? ++sleeps : ++free_;
    double out = at + std::max(0.0, s);
    if (avg > 0 && total > avg * (out + slop) * (1 + 1e-9) + avg * 2e-9 + 1e-6) {
      hk::fail("over-average",
               hist + hk::fmt(" step %d: %.3f passed at %.9f, allowed %.3f (sleep %.9g)", k, total, out, avg * at2, s));
      return;
    }
    em.push_back({out, d});
    double think = 0;
    switch (style) {
      case 0: break;                                            // as fast as it can
      case 1: think = d / ref * r.in(0, 300) / 100.0; break;    // around the average
      case 2: think = r.p(5) ? r.in(0, 20) : 0; break;          // bursts
      case 3: think = 0; break;
      case 4: think = d / (peak > 0 ? peak : ref) * r.in(50, 150) / 100.0 * N; break;
    }
    q.push({out - lull + think, e.th});
    maxAt = std::max(maxAt, out);
    if (maxAt > 1e8) {
      break;
    }
  }
  hk::eval(h);
  hk::count("requests", K);
  hk::count("bucket_sleeps", needed);
  hk::count("sleeps", sleeps);
  hk::count("no_sleeps", free_);
  if (peak > 0) {
    std::sort(em.begin(), em.end(), [](const Emit& a, const Emit& b) { return a.at < b.at; });
    double slack = maxReq * (avg > 0 ? 2 * N + 1 : N);
    for (size_t i = 0; i < em.size(); ++i) {
      double sum = 0;
      for (size_t j = i; j < em.size(); ++j) {
        sum += em[j].n;
        double len = em[j].at - em[i].at + slop * 2;
        double most = bucket + peak * len;
        hk::evalOnly();
        if (sum > (most + slack) * (1 + 1e-9) + peak * 2e-9 * em.size() + 1e-3) {
          hk::fail("over-peak", hist + hk::fmt(" %.0f passed in the %.9f s from %.9f: more than %.3f + %.0f", sum, len,
                                               em[i].at, most, slack));
          return;
        }
      }
    }
  }
}

// registration: state starts afresh with the first user only
static void registration(hk::Rng& r) {
  Cfg c = cfg(r);
  Throttler t(topts(c));
  int64_t refs = 0;
  double prog = 0;
  string h;
  for (int i = 0; i < 60; ++i) {
    int op = r.in(0, 3);
    if (op == 0) {
      t.startTransfer();
      if (refs++ == 0) {
        prog = 0;
      }
      h += 's';
    } else if (op == 1 && refs > 0) {
      t.endTransfer();
      --refs;
      h += 'e';
    } else {
      int64_t d = r.in(0, 1000);
      double s = t.calculateSleep(d, Clock::now());
      if (refs > 0) {
        prog += d;
      } else if (s > 0) {
        hk::fail("sleep-unregistered", h + c.str());
      }
      h += refs ? 'c' : 'u';
    }
    hk::evalOnly();
    if (!near(prog, t.getProgress())) {
      hk::fail("registration-progress", h + " " + c.str() + hk::fmt(" %.3f instead of %.3f", t.getProgress(), prog));
      return;
    }
  }
  hk::eval(hk::h64(h + c.str()));
}

static void splitting(hk::Rng& r) {
  Cfg c = cfg(r);
  c.limit = r.p(50) ? r.in(1, 10) : r.in(1, 100000);
  Probe t(topts(c));
  t.startTransfer();
  t.real = false;
  int64_t d = r.p(10) ? 0 : r.p(30) ? c.limit * r.in(1, 20) + r.in(-1, 1) : r.in(1, c.limit * 30);
  d = std::max<int64_t>(0, d);
  WdtOptions o;
  ThreadCtx ctx(o, false, 0);
  if (r.p(50)) {
    t.limit(d);
  } else {
    t.limit(ctx, d);
  }
  double sum = 0;
  for (double x : t.asked) {
    sum += x;
    hk::evalOnly();
    if (x > c.limit || x < 0) {
      hk::fail("request-too-large", hk::fmt("%.0f asked at once with limit %ld", x, c.limit));
    }
  }
  if (sum != d) {
    hk::fail("limit-sum", hk::fmt("limit(%ld) charged %.0f, request limit %ld", d, sum, c.limit));
  }
  hk::eval(hk::h64(hk::fmt("split %ld %ld", d, c.limit)));
  // the sleep asked for is really taken, for each part
  if (r.p(4)) {
    t.asked.clear();
    t.answer = 0.004;
    auto a = std::chrono::steady_clock::now();
    int parts = r.in(1, 5);
    t.limit(c.limit * parts);
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
    if (el < 0.004 * parts) {
      hk::fail("sleep-not-taken", hk::fmt("%d parts with 4 ms each took %.6f s", parts, el));
    }
  }
}

static void stress(hk::Rng& r, bool change) {
  Cfg c;
  c.avg = r.p(70) ? 20000 : -1;
  c.peak = c.avg > 0 ? (r.p(50) ? 0 : 30000) : 20000;
  c.bucket = r.p(50) ? 0 : 3000;
  c.limit = r.p(50) ? 200 : 1000;
  ThrottlerOptions o = topts(c);
  o.throttler_log_time_millis = r.p(50) ? 1 : 0;
  auto t = Throttler::makeThrottler(o);
  int N = r.in(2, 8);
  struct Rec {
    double at, n;
  };
  vector<vector<Rec>> recs(N);
  std::atomic<bool> stop{false};
  t->startTransfer();
  auto t0 = std::chrono::steady_clock::now();
  t->endTransfer();
  t->startTransfer();
  vector<std::thread> th;
  for (int i = 0; i < N; ++i) {
    uint64_t seed = r.next();
    th.emplace_back([&, i, seed] {
      hk::Rng q(seed);
      WdtOptions wo;
      wo.enable_perf_stat_collection = true;
      ThreadCtx ctx(wo, false, i);
      t->startTransfer();
      while (!stop) {
        int64_t d = q.in(1, 600);
        t->limit(ctx, d);
        recs[i].push_back({std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), (double)d});
        if (q.p(10)) {
          usleep(q.in(0, 3000));
        }
      }
      t->endTransfer();
    });
  }
  if (change) {
    for (int i = 0; i < 30; ++i) {
      double a = r.p(50) ? 30000 : 1000000, p = 0, b = 0;
      t->setThrottlerRates(a, p, b);
      t->getProgress();
      t->getAvgRatePerSec();
      t->getBucketLimit();
      t->getPeakRatePerSec();
      t->setThrottlerLogTimeMillis(i % 3);
      t->getThrottlerLogTimeMillis();
      usleep(5000);
    }
  } else {
    usleep(250000);
  }
  stop = true;
  for (auto& x : th) {
    x.join();
  }
  t->endTransfer();
  if (!change) {
    vector<Rec> all;
    for (auto& v : recs) {
      all.insert(all.end(), v.begin(), v.end());
    }
    std::sort(all.begin(), all.end(), [](const Rec& a, const Rec& b) { return a.at < b.at; });
    double sum = 0, peak = eff(c.avg, c.peak), bucket = c.bucket > 0 ? c.bucket : .5 * peak;
    for (auto& x : all) {
      sum += x.n;
      hk::evalOnly();
      // a request is charged at its parts, each waits for the average by itself
      if (c.avg > 0 && sum > c.avg * x.at + 1) {
        hk::fail("stress-over-average", hk::fmt("%d threads: %.0f passed after %.6f s, %s", N, sum, x.at, c.str().c_str()));
        return;
      }
      if (sum > bucket + peak * x.at + (2 * N + 1) * 600) {
        hk::fail("stress-over-peak", hk::fmt("%d threads: %.0f passed after %.6f s, %s", N, sum, x.at, c.str().c_str()));
        return;
      }
    }
    hk::count("stress_requests", all.size());
    double last = all.empty() ? 0 : all.back().at;
    hk::count("stress_tokens", (long)sum);
    if (last <= 0) {
      hk::fail("stress-nothing", "no request ever passed");
    }
  }
  hk::eval(r.next());
  hk::count(change ? "stress_change_runs" : "stress_runs");
}

int main(int argc, char** argv) {
  hk::init();
  FLAGS_minloglevel = 4;
  string mode = hk::sarg(argc, argv, "mode");
  long seed = hk::arg(argc, argv, "seed", 1), n = hk::arg(argc, argv, "n", 100);
  for (long i = 0; i < n; ++i) {
    hk::Rng r(seed * 1000003 + i);
    HK_CTX("mode=%s seed=%ld i=%ld", mode.c_str(), seed, i);
    if (mode == "sim") {
      simulate(r, i % 2);
    } else if (mode == "reg") {
      registration(r);
      splitting(r);
    } else if (mode == "stress") {
      stress(r, i % 2);
    }
  }
  return hk::done();
}
