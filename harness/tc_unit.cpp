// Barriers, funnels, conditions, once-only sections and thread states under
// many threads with random delays; monitors on order and exactly-once.
#include <sys/resource.h>
#include <algorithm>
#include <chrono>
#include <functional>
#include <thread>
#include "hk.h"
#include "wdt/AbortChecker.h"
#include "wdt/WdtOptions.h"
#include "wdt/util/CommonImpl.h"
#include "wdt/util/ThreadsController.h"
using namespace facebook::wdt;
using std::string;
using std::vector;

struct Flag : IAbortChecker {
  std::atomic<bool> f{false};
  bool shouldAbort() const override {
    return f;
  }
};
static void jitter(hk::Rng& q) {
  switch (q.in(0, 9)) {
    case 0: usleep(q.in(1, 300)); break;
    case 1: case 2: std::this_thread::yield(); break;
    case 3: for (volatile int i = q.in(0, 2000); i > 0; i = i - 1) {} break;
    default: break;
  }
}
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::atomic<long> gBeat{0};
static std::atomic<bool> gOver{false};

// Threads run through rounds of the controller's primitives as a transfer does
static void rounds(hk::Rng& r) {
  int N = r.p(15) ? 1 : r.in(2, 10), B = r.in(1, 4), F = r.in(1, 3);
  ThreadsController tc(N);
  tc.setNumBarriers(B);
  tc.setNumFunnels(F);
  tc.setNumConditions(1);
  int R = r.in(1, 3);
  string desc = hk::fmt("N=%d barriers=%d funnels=%d rounds=%d", N, B, F, R);
  uint64_t hh = r.next();
  for (int round = 0; round < R; ++round) {
    if (round) {
      tc.reset();
      auto st = tc.getThreadStates();
      for (auto& s : st) {
        if (s.second != RUNNING) {
          hk::fail("state-after-reset", desc);
        }
      }
    }
    vector<std::atomic<int>> arrived(B), passed(B);
    std::atomic<int> gone{0}, startRuns{0}, startDone{0}, endRuns{0}, endCalls{0}, startCalls{0};
    vector<std::atomic<int>> inFunnel(F), successes(F), attempts(F);
    std::atomic<int> finished{0};
    vector<std::atomic<int>> state(N);
    vector<std::thread> th;
    int failTimes = r.in(0, 3);
    bool infinite = r.p(50), leave = r.p(40);
    for (int t = 0; t < N; ++t) {
      uint64_t seed = r.next();
      bool drops = r.p(30);
      int dropAt = r.in(0, B);
      th.emplace_back([&, t, seed, drops, dropAt] {
        hk::Rng q(seed);
        WdtOptions o;
        o.abort_check_interval_millis = 5;
        Flag ab;
        ThreadCtx ctx(o, false, t);
        ctx.setAbortChecker(&ab);
        jitter(q);
        tc.registerThread(t);
        state[t] = RUNNING;
        startCalls++;
        bool mine = false;
        tc.executeAtStart([&] {
          jitter(q);
          mine = true;
          if (startRuns++) {
            hk::fail("start-twice", desc);
          }
          startDone = 1;
        });
        if (!startDone) {
          hk::fail("start-not-done", desc + " a thread went on before the start section was over");
        }
        for (int b = 0; b < B; ++b) {
          if (drops && dropAt == b) {
            break;
          }
          // own state and what others see of it
          ThreadStatus ns = q.p(50) ? RUNNING : WAITING;
          tc.markState(t, ns);
          if (tc.getState(t) != ns) {
            hk::fail("own-state", desc);
          }
          jitter(q);
          arrived[b]++;
          tc.getBarrier(b)->execute();
          int a = arrived[b], g = gone;
          if (a + g < N) {
            hk::fail("barrier-early", desc + hk::fmt(" barrier %d passed with %d arrived and %d gone", b, a, g));
          }
          passed[b]++;
          hk::evalOnly();
        }
        for (int f = 0; f < F; ++f) {
          auto fun = tc.getFunnel(f);
          int guard = 0;
          while (true) {
            FunnelStatus s = fun->getStatus();
            if (s == FUNNEL_START) {
              if (inFunnel[f]++) {
                hk::fail("funnel-two-inside", desc);
              }
              if (successes[f]) {
                hk::fail("funnel-start-after-success", desc);
              }
              jitter(q);
              int at = attempts[f]++;
              bool fail = at < failTimes;
              inFunnel[f]--;
              if (fail) {
                fun->notifyFail();
                jitter(q);
                if (leave) {
                  break;
                }
              } else {
                successes[f]++;
                fun->notifySuccess();
              }
            } else if (s == FUNNEL_PROGRESS) {
              if (infinite) {
                fun->wait();
              } else {
                fun->wait(q.in(1, 30), ctx);
              }
            } else {
              if (successes[f] != 1) {
                hk::fail("funnel-end-without-success", desc + hk::fmt(" %d successes", successes[f].load()));
              }
              break;
            }
            if (++guard > 2000000) {
              hk::fail("funnel-never-ends", desc);
              break;
            }
          }
          hk::evalOnly();
        }
        jitter(q);
        endCalls++;
        gone++;
        state[t] = FINISHED;
        tc.deRegisterThread(t);
        if (tc.getState(t) != FINISHED) {
          hk::fail("finished-state", desc);
        }
        finished++;
        int before = finished;
        if (before > 1 && !tc.hasThreads(t, FINISHED)) {
          hk::fail("has-threads", desc + " no finished thread seen");
        }
        if (!tc.hasThreads(FINISHED)) {
          hk::fail("has-threads-any", desc);
        }
        if (tc.numRunningThreads() > N - before) {
          hk::fail("running-threads", desc);
        }
        tc.executeAtEnd([&] {
          if (endRuns++) {
            hk::fail("end-twice", desc);
          }
          if (endCalls != N) {
            hk::fail("end-early", desc + hk::fmt(" with %d of %d threads", endCalls.load(), N));
          }
        });
        gBeat++;
      });
    }
    for (auto& x : th) {
      x.join();
    }
    if (startRuns != 1 || endRuns != 1) {
      hk::fail("once-sections", desc + hk::fmt(" start ran %d times, end %d times", startRuns.load(), endRuns.load()));
    }
    for (int b = 0; b < B; ++b) {
      if (passed[b] != arrived[b]) {
        hk::fail("barrier-stuck", desc);
      }
      hk::count("barrier_passes", passed[b]);
    }
    hk::count("funnel_attempts", attempts[0]);
    if (tc.numRunningThreads() != 0 || tc.hasThreads(RUNNING) || tc.hasThreads(WAITING)) {
      hk::fail("final-states", desc);
    }
    hk::eval(hh + round);
  }
}

// state queries against a model, one thread
static void states(hk::Rng& r) {
  int N = r.in(1, 8);
  ThreadsController tc(N);
  tc.setNumBarriers(r.in(0, 2));
  vector<int> m(N, INIT);
  for (int i = 0; i < 60; ++i) {
    int t = r.in(0, N - 1);
    switch (r.in(0, 3)) {
      case 0: tc.registerThread(t); m[t] = RUNNING; break;
      case 1: {
        int s = r.in(0, 3);
        tc.markState(t, (ThreadStatus)s);
        m[t] = s;
        break;
      }
      default: break;
    }
    auto all = tc.getThreadStates();
    bool bad = (int)all.size() != N || tc.getTotalThreads() != N;
    int run = 0;
    for (int j = 0; j < N; ++j) {
      bad |= all[j] != m[j] || tc.getState(j) != m[j];
      run += m[j] == RUNNING;
    }
    bad |= tc.numRunningThreads() != run;
    for (int s = 0; s < 4; ++s) {
      int n = std::count(m.begin(), m.end(), s);
      bad |= tc.hasThreads((ThreadStatus)s) != (n > 0);
      bad |= tc.hasThreads(t, (ThreadStatus)s) != (n - (m[t] == s) > 0);
    }
    hk::evalOnly();
    if (bad) {
      hk::fail("state-model", hk::fmt("N=%d step %d", N, i));
      return;
    }
  }
  hk::eval(r.next());
}

// sections executed once by the first or the last of N calls
static void once(hk::Rng& r) {
  int N = r.in(1, 12);
  bool first = r.p(50);
  ExecuteOnceFunc f(N, first);
  for (int round = 0; round < 2; ++round) {
    int calls = r.p(60) ? N : r.in(0, N);
    std::atomic<int> runs{0}, begun{0}, inside{0};
    vector<std::thread> th;
    for (int i = 0; i < calls; ++i) {
      uint64_t seed = r.next();
      th.emplace_back([&, seed] {
        hk::Rng q(seed);
        jitter(q);
        begun++;
        f.execute([&] {
          jitter(q);
          runs++;
          if (!first && begun != N) {
            hk::fail("last-early", hk::fmt("%d of %d", begun.load(), N));
          }
        });
        if (first && runs != 1) {
          hk::fail("first-not-over", hk::fmt("runs %d", runs.load()));
        }
      });
    }
    for (auto& t : th) {
      t.join();
    }
    int want = first ? calls > 0 : calls == N;
    hk::evalOnly();
    if (runs != want) {
      hk::fail(first ? "first-count" : "last-count", hk::fmt("N=%d calls=%d runs=%d", N, calls, runs.load()));
    }
    f.reset();
  }
  hk::eval(r.next());
}

// a condition guards a bounded buffer: exclusion, no lost wakeups, timeouts
static void condition(hk::Rng& r) {
  ThreadsController tc(2);
  tc.setNumConditions(2);
  auto c = tc.getCondition(r.in(0, 1));
  int P = r.in(1, 4), C = r.in(1, 4), per = r.in(1, 40);
  int total = P * per, q = 0, taken = 0, inside = 0;
  bool all = r.p(50);
  vector<std::thread> th;
  std::atomic<int> late{0};
  for (int i = 0; i < P + C; ++i) {
    uint64_t seed = r.next();
    th.emplace_back([&, i, seed] {
      hk::Rng g(seed);
      WdtOptions o;
      o.abort_check_interval_millis = 3000;
      Flag ab;
      ThreadCtx ctx(o, false, i);
      ctx.setAbortChecker(&ab);
      if (i < P) {
        for (int k = 0; k < per; ++k) {
          jitter(g);
          auto gd = c->acquire();
          if (inside++) {
            hk::fail("condition-two-inside", "");
          }
          ++q;
          inside--;
          all ? gd.notifyAll() : gd.notifyOne();
        }
      } else {
        while (true) {
          auto gd = c->acquire();
          if (inside++) {
            hk::fail("condition-two-inside", "");
          }
          if (q > 0) {
            --q;
            ++taken;
          }
          bool stop = taken == total;
          inside--;
          if (stop) {
            gd.notifyAll();
            break;
          }
          if (q == 0) {
            double t0 = now();
            gd.wait(4000, ctx);
            if (now() - t0 > 3.5 && taken != total) {
              late++;
            }
          }
        }
      }
    });
  }
  for (auto& t : th) {
    t.join();
  }
  hk::evalOnly(total);
  if (taken != total || q != 0) {
    hk::fail("condition-count", hk::fmt("%d of %d", taken, total));
  }
  if (late) {
    hk::fail("condition-lost-wakeup", hk::fmt("%d waits ran into their timeout with work to do", late.load()));
  }
  hk::eval(r.next());
}

// timed waits: not longer than asked, ended early by abort or notification
static void timed(hk::Rng& r) {
  WdtOptions o;
  o.abort_check_interval_millis = r.p(20) ? 0 : r.in(1, 20);
  Flag ab;
  ThreadCtx ctx(o, false, 0);
  ctx.setAbortChecker(&ab);
  int ms = r.in(0, 60);
  int kind = r.in(0, 3);
  if (kind == 2 && o.abort_check_interval_millis == 0) {
    kind = 0;
  }
  if (kind) {
    ms = 20000;
  }
  bool funnel = r.p(50);
  Funnel f;
  ConditionGuard c;
  if (f.getStatus() != FUNNEL_START || f.getStatus() != FUNNEL_PROGRESS) {
    hk::fail("funnel-initial", "");
  }
  std::thread other;
  int delay = r.in(0, 20000);
  std::atomic<bool> waiting{false}, done{false};
  if (kind) {
    other = std::thread([&] {
      usleep(delay);
      if (kind == 2) {
        ab.f = true;
      }
      while (!done && kind != 2) {  // until the waiter was really there
        if (kind == 1) {
          if (funnel) {
            f.notifySuccess();
          } else {
            auto g = c.acquire();
            g.notifyOne();
          }
        } else {
          if (funnel) {
            f.notifyFail();
          } else {
            auto g = c.acquire();
            g.notifyAll();
          }
        }
        usleep(1000);
      }
    });
  }
  double t0 = now();
  if (funnel) {
    f.wait(ms, ctx);
  } else {
    auto g = c.acquire();
    g.wait(ms, ctx);
  }
  double el = (now() - t0) * 1000;
  done = true;
  if (other.joinable()) {
    other.join();
  }
  hk::evalOnly();
  string d = hk::fmt("kind %d funnel %d asked %d ms abort check %d ms: waited %.1f ms", kind, funnel, ms,
                     o.abort_check_interval_millis, el);
  if (el > (kind ? 10000 : ms + 3000)) {
    hk::fail("wait-too-long", d);
  }
  if (kind == 0 && el > ms * 1.3 + 20) {
    // load can delay one wait, not every one of ten
    double best = el;
    for (int i = 0; i < 10; ++i) {
      double t1 = now();
      if (funnel) {
        f.wait(ms, ctx);
      } else {
        auto g = c.acquire();
        g.wait(ms, ctx);
      }
      best = std::min(best, (now() - t1) * 1000);
    }
    if (best > ms * 1.3 + 20) {
      hk::fail("wait-longer-than-asked", d + hk::fmt(", best of ten %.1f ms", best));
    }
  }
  if (kind == 0 && el < ms * 0.5 - 1) {
    hk::count("short_waits");  // spurious wakeups are allowed
  }
  if (kind == 1 && funnel && f.getStatus() != FUNNEL_END) {
    hk::fail("funnel-status", d);
  }
  hk::eval(hk::h64(d));
}

int main(int argc, char** argv) {
  hk::init();
  FLAGS_minloglevel = 4;
  string mode = hk::sarg(argc, argv, "mode");
  long seed = hk::arg(argc, argv, "seed", 1), n = hk::arg(argc, argv, "n", 100);
  std::thread dog([&] {
    long last = -1;
    int idle = 0;
    while (!gOver) {
      usleep(100000);
      long b = gBeat;
      idle = b == last ? idle + 1 : 0;
      last = b;
      if (idle > 600) {
        hk::fail("stuck:" + mode, hk::ctxbuf());
        hk::done();
        _exit(0);
      }
    }
  });
  for (long i = 0; i < n; ++i) {
    hk::Rng r(seed * 1000003 + i);
    HK_CTX("mode=%s seed=%ld i=%ld", mode.c_str(), seed, i);
    gBeat++;
    if (mode == "rounds") {
      rounds(r);
    } else if (mode == "misc") {
      states(r);
      once(r);
      condition(r);
      timed(r);
    }
  }
  gOver = true;
  dog.join();
  return hk::done();
}
