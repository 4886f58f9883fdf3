// Quotas and registrations: sequential histories against a reference model,
// concurrent histories against per-identifier linearizability and live-count
// ledgers, and the high level send/receive calls.
#include <algorithm>
#include <functional>
#include <set>
#include <thread>
#include "hk.h"
#include "wdt/Wdt.h"
#include "wdt/WdtResourceController.h"
using namespace facebook::wdt;
using std::map;
using std::set;
using std::string;
using std::vector;

static string gDir;

static WdtTransferRequest request(const string& ns, const string& id) {
  WdtTransferRequest q(0, 1, gDir);
  q.wdtNamespace = ns;
  q.destIdentifier = id;
  q.hostName = "127.0.0.1";
  q.transferId = "t" + id;
  return q;
}

// ------------------------------------------------------------- sequential
struct Model {
  bool strict{false};
  int64_t gS{0}, gR{0}, nsS{0}, nsR{0};
  struct Ns {
    int64_t maxS, maxR;
    map<string, const void*> s, r;
  };
  map<string, Ns> ns;
  int64_t count(bool snd) {
    int64_t n = 0;
    for (auto& x : ns) {
      n += snd ? x.second.s.size() : x.second.r.size();
    }
    return n;
  }
};

static void sequential(hk::Rng& r) {
  WdtOptions o;
  o.global_sender_limit = r.p(50) ? 0 : r.in(1, 6);
  o.global_receiver_limit = r.p(50) ? 0 : r.in(1, 6);
  o.namespace_sender_limit = r.p(40) ? 0 : r.in(1, 3);
  o.namespace_receiver_limit = r.p(40) ? 0 : r.in(1, 3);
  o.avg_mbytes_per_sec = 10;
  auto rc = std::make_unique<WdtResourceController>(o);
  Model m;
  m.gS = o.global_sender_limit;
  m.gR = o.global_receiver_limit;
  m.nsS = o.namespace_sender_limit;
  m.nsR = o.namespace_receiver_limit;
  vector<SenderPtr> heldS;
  vector<ReceiverPtr> heldR;
  vector<string> names = {"", "Global", "ns1", "ns2"}, ids = {"a", "b", "c", "d", ""};
  string h = hk::fmt("limits %ld %ld %ld %ld:", m.gS, m.gR, m.nsS, m.nsR);
  auto bad = [&](const string& key, const string& what) { hk::fail(key, h.size() > 1500 ? h.substr(h.size() - 1500) + " => " + what : h + " => " + what); };
  int K = r.in(5, 80);
  for (int k = 0; k < K; ++k) {
    string n = names[r.in(0, 3)], id = ids[r.in(0, 4)];
    bool snd = r.p(50);
    auto it = m.ns.find(n);
    int op = r.in(0, 15);
    h += hk::fmt(" %d%c(%s,%s)", op, snd ? 's' : 'r', n.c_str(), id.c_str());
    hk::evalOnly();
    auto newNs = [&]() -> Model::Ns& {
      Model::Ns x;
      x.maxS = m.nsS;
      x.maxR = m.nsR;
      return m.ns.emplace(n, x).first->second;
    };
    if (op <= 4) {
      ErrorCode want;
      const void* old = nullptr;
      if (it == m.ns.end() && m.strict) {
        want = NOT_FOUND;
      } else {
        auto& x = it == m.ns.end() ? newNs() : it->second;
        auto& mp = snd ? x.s : x.r;
        int64_t g = snd ? m.gS : m.gR, l = snd ? x.maxS : x.maxR;
        if ((g > 0 && m.count(snd) >= g) || (l > 0 && (int64_t)mp.size() >= l)) {
          want = QUOTA_EXCEEDED;
          if (mp.count(id)) {
            want = ERROR;  // either answer refuses it
          }
        } else if (mp.count(id)) {
          want = ALREADY_EXISTS;
          old = mp[id];
        } else {
          want = OK;
        }
      }
      SenderPtr s;
      ReceiverPtr v;
      ErrorCode got = snd ? rc->createSender(n, id, request(n, id), s) : rc->createReceiver(n, id, request(n, id), v);
      const void* p = snd ? (void*)s.get() : (void*)v.get();
      if (want == ERROR ? (got != QUOTA_EXCEEDED && got != ALREADY_EXISTS) : got != want) {
        bad("create-code", errorCodeToStr(got) + " instead of " + errorCodeToStr(want));
        return;
      }
      if (got == OK) {
        if (!p) {
          bad("create-null", "OK without object");
          return;
        }
        (snd ? m.ns[n].s : m.ns[n].r)[id] = p;
        if (r.p(30)) {
          snd ? heldS.push_back(s) : heldR.push_back(v);
        }
        hk::count("created");
      } else if (got == ALREADY_EXISTS ? (old && p != old) : p != nullptr) {
        bad("create-object", "refused with " + errorCodeToStr(got) + " but gave another object");
      }
    } else if (op <= 7) {
      ErrorCode got = snd ? rc->releaseSender(n, id) : rc->releaseReceiver(n, id);
      bool has = it != m.ns.end() && (snd ? it->second.s : it->second.r).erase(id);
      if ((got == OK) != has) {
        bad("release-code", errorCodeToStr(got));
        return;
      }
    } else if (op == 8 || op == 9) {
      const void* p = snd ? (const void*)rc->getSender(n, id).get() : (const void*)rc->getReceiver(n, id).get();
      const void* want = nullptr;
      if (it != m.ns.end()) {
        auto& mp = snd ? it->second.s : it->second.r;
        auto f = mp.find(id);
        want = f == mp.end() ? nullptr : f->second;
      }
      if (p != want) {
        bad("lookup", hk::fmt("%p instead of %p", p, want));
        return;
      }
    } else if (op == 10) {
      size_t got = snd ? rc->getAllSenders(n).size() : rc->getAllReceivers(n).size();
      size_t want = it == m.ns.end() ? 0 : (snd ? it->second.s : it->second.r).size();
      if (got != want) {
        bad("get-all", hk::fmt("%zu instead of %zu", got, want));
        return;
      }
      if (snd) {
        auto v = rc->getAllSendersIds(n);
        set<string> a(v.begin(), v.end()), b;
        if (it != m.ns.end()) {
          for (auto& x : it->second.s) {
            b.insert(x.first);
          }
        }
        if (a != b || a.size() != v.size()) {
          bad("sender-ids", "");
        }
      }
    } else if (op == 11) {
      ErrorCode got;
      if (r.p(50)) {
        got = snd ? rc->releaseAllSenders(n) : rc->releaseAllReceivers(n);
        if (it != m.ns.end()) {
          (snd ? it->second.s : it->second.r).clear();
        }
      } else {
        // nothing has run, so nothing is stale
        vector<string> ids;
        got = snd ? rc->releaseStaleSenders(n, ids) : rc->releaseStaleReceivers(n, ids);
        if (!ids.empty()) {
          bad("stale-not-started", ids[0]);
        }
      }
      if ((got == OK) != (it != m.ns.end())) {
        bad("release-all-code", errorCodeToStr(got));
      }
    } else if (op == 12) {
      if (r.p(50)) {
        if (rc->registerWdtNamespace(n) != OK) {
          bad("register", n);
        }
        if (it == m.ns.end()) {
          newNs();
        }
      } else {
        ErrorCode got = rc->deRegisterWdtNamespace(n);
        if ((got == OK) != (it != m.ns.end())) {
          bad("deregister-code", errorCodeToStr(got));
        }
        m.ns.erase(n);
      }
    } else if (op == 13) {
      int64_t v = r.in(0, 5);
      if (r.p(50)) {
        if (snd) {
          rc->updateMaxSendersLimit(v);
          m.gS = v;
        } else {
          rc->updateMaxReceiversLimit(v);
          m.gR = v;
        }
      } else {
        if (snd) {
          rc->updateMaxSendersLimit(n, v);
        } else {
          rc->updateMaxReceiversLimit(n, v);
        }
        if (it != m.ns.end()) {
          (snd ? it->second.maxS : it->second.maxR) = v;
        }
      }
      h += hk::fmt("=%ld", v);
    } else if (op == 14) {
      bool got = snd ? rc->hasSenderQuota(n) : rc->hasReceiverQuota(n);
      int64_t g = snd ? m.gS : m.gR;
      bool want = !(g > 0 && m.count(snd) >= g);
      if (it != m.ns.end()) {
        int64_t l = snd ? it->second.maxS : it->second.maxR;
        want &= !(l > 0 && (int64_t)(snd ? it->second.s : it->second.r).size() >= l);
      }
      if (got != want) {
        bad("has-quota", hk::fmt("%d", got));
      }
    } else {
      if (r.p(70)) {
        m.strict = r.p(50);
        rc->requireRegistration(m.strict);
      } else {
        rc->shutdown();
        m.ns.clear();
      }
    }
    int32_t a, b, c;
    rc->getCounts(a, b, c);
    if (a != (int)m.ns.size() || b != m.count(true) || c != m.count(false)) {
      bad("counts", hk::fmt("%d %d %d instead of %zu %ld %ld", a, b, c, m.ns.size(), m.count(true), m.count(false)));
      return;
    }
  }
  for (auto& s : heldS) {  // usable after release
    if (s->getTransferRequest().hostName != "127.0.0.1") {
      bad("held-object", "");
    }
    s->abort(ABORTED_BY_APPLICATION);
  }
  rc.reset();
  for (auto& s : heldR) {
    s->getTransferId();
  }
  hk::eval(hk::h64(h));
}

// ------------------------------------------------------------- concurrent
struct Op {
  enum Kind { CREATE, RELEASE, GET, CLEAR } kind;
  long inv, ret;
  int code;         // CREATE: 0 ok 1 exists 2 refused; RELEASE: 0 ok 1 not there
  const void* obj;  // CREATE: the object (made or existing); GET: found
  bool global;      // CLEAR of everything (shutdown, deregistration)
};
// is there an order of the operations on one identifier, compatible with real
// time, in which each answer is right?
static bool linearizable(vector<Op> ops) {
  int n = ops.size();
  if (n > 20) {
    return true;
  }
  set<std::pair<unsigned, const void*>> seen;
  std::function<bool(unsigned, const void*)> go = [&](unsigned done, const void* live) -> bool {
    if (done == (1u << n) - 1) {
      return true;
    }
    if (!seen.insert({done, live}).second) {
      return false;
    }
    long minRet = LONG_MAX;
    for (int i = 0; i < n; ++i) {
      if (!(done >> i & 1)) {
        minRet = std::min(minRet, ops[i].ret);
      }
    }
    for (int i = 0; i < n; ++i) {
      if ((done >> i & 1) || ops[i].inv > minRet) {
        continue;
      }
      auto& o = ops[i];
      const void* next = live;
      bool ok = true;
      switch (o.kind) {
        case Op::CREATE:
          if (o.code == 0) {
            ok = live == nullptr;
            next = o.obj;
          } else if (o.code == 1) {
            ok = live == o.obj;
          }
          break;
        case Op::RELEASE:
          ok = o.code == 0 ? live != nullptr : live == nullptr;
          if (o.code == 0) {
            next = nullptr;
          }
          break;
        case Op::GET: ok = live == o.obj; break;
        case Op::CLEAR: next = nullptr; break;
      }
      if (ok && go(done | 1u << i, next)) {
        return true;
      }
    }
    return false;
  };
  return go(0, nullptr);
}

static void concurrent(hk::Rng& r, bool live) {
  WdtOptions o;
  int64_t gl = r.p(50) ? 0 : r.in(2, 6), nl = r.p(50) ? 0 : r.in(1, 3);
  o.global_sender_limit = o.global_receiver_limit = gl;
  o.namespace_sender_limit = o.namespace_receiver_limit = nl;
  o.accept_window_millis = 50;
  o.accept_timeout_millis = 20;
  o.max_accept_retries = 2;
  auto rc = std::make_unique<WdtResourceController>(o);
  bool clears = r.p(50), strict = r.p(30);
  if (strict) {
    rc->requireRegistration(true);
  }
  int T = r.in(2, 6), per = r.in(3, 12), NN = r.in(1, 3), NI = r.in(1, 4);
  for (int i = 0; i < NN; ++i) {
    if (strict || r.p(50)) {
      rc->registerWdtNamespace("n" + std::to_string(i));
    }
  }
  std::atomic<long> clock{0};
  std::atomic<int> liveS{0}, liveR{0}, start{0};
  // every object is kept, so that addresses stay distinct
  vector<vector<SenderPtr>> keepS(T);
  vector<vector<ReceiverPtr>> keepR(T);
  vector<vector<std::pair<string, Op>>> log(T);
  vector<std::thread> th;
  string desc = hk::fmt("limits %ld %ld threads %d clears %d strict %d live %d", gl, nl, T, clears, strict, live);
  std::atomic<bool> overG{false};
  for (int t = 0; t < T; ++t) {
    uint64_t seed = r.next();
    th.emplace_back([&, t, seed] {
      hk::Rng q(seed);
      ++start;
      while (start < T) {
      }
      for (int k = 0; k < per; ++k) {
        string n = "n" + std::to_string(q.in(0, NN - 1)), id = "i" + std::to_string(q.in(0, NI - 1));
        bool snd = live ? false : q.p(50);
        string key = (snd ? "s/" : "r/") + n + "/" + id;
        Op op{};
        int what = q.in(0, 99);
        auto& cnt = snd ? liveS : liveR;
        if (what < 40) {
          op.kind = Op::CREATE;
          SenderPtr s;
          ReceiverPtr v;
          auto req = request(n, id);
          op.inv = clock++;
          ErrorCode c = snd ? rc->createSender(n, id, req, s) : rc->createReceiver(n, id, req, v);
          op.ret = clock++;
          op.obj = snd ? (void*)s.get() : (void*)v.get();
          op.code = c == OK ? 0 : c == ALREADY_EXISTS ? 1 : 2;
          if (c == OK) {
            int now = ++cnt;
            if (!clears && gl > 0 && now > gl) {
              overG = true;
            }
          }
          if (c != OK && c != ALREADY_EXISTS && c != QUOTA_EXCEEDED && c != NOT_FOUND) {
            hk::fail("conc-create-code", desc + " " + errorCodeToStr(c));
          }
          if (c == QUOTA_EXCEEDED && gl == 0 && nl == 0) {
            hk::fail("conc-quota-unlimited", desc);
          }
          if (live && c == OK) {
            v->init();
            v->transferAsync();
          } else if (live && c == ALREADY_EXISTS && q.p(50)) {
            v->abort(ABORTED_BY_APPLICATION);
          }
          if (s) {
            keepS[t].push_back(s);
          }
          if (v && (!live || q.p(60))) {
            keepR[t].push_back(v);
          } else if (v && live && c == OK) {
            keepR[t].push_back(v);
          }
        } else if (what < 65) {
          op.kind = Op::RELEASE;
          --cnt;  // from now on it may be gone
          op.inv = clock++;
          ErrorCode c = snd ? rc->releaseSender(n, id) : rc->releaseReceiver(n, id);
          op.ret = clock++;
          op.code = c == OK ? 0 : 1;
          if (c != OK) {
            ++cnt;
          }
        } else if (what < 85 || (what < 95 && !clears)) {
          op.kind = Op::GET;
          op.inv = clock++;
          SenderPtr s;
          ReceiverPtr v;
          if (snd) {
            s = rc->getSender(n, id);
          } else {
            v = rc->getReceiver(n, id);
          }
          op.ret = clock++;
          op.obj = snd ? (void*)s.get() : (void*)v.get();
          if (v) {
            if (live) {
              v->isStale();
              if (q.p(30)) {
                v->abort(ABORTED_BY_APPLICATION);
              }
            }
            keepR[t].push_back(v);
          }
          if (s) {
            keepS[t].push_back(s);
          }
        } else if (what < 95) {
          op.kind = Op::CLEAR;
          int k = q.in(0, 9);
          op.inv = clock++;
          if (k < 3) {
            key = "S/" + n;
            rc->releaseAllSenders(n);
          } else if (k < 6) {
            key = "R/" + n;
            rc->releaseAllReceivers(n);
          } else if (k < 9) {
            key = "N/" + n;
            rc->deRegisterWdtNamespace(n);
            if (strict && q.p(50)) {
              rc->registerWdtNamespace(n);
            }
          } else {
            key = "*";
            rc->shutdown();
            if (strict) {
              rc->registerWdtNamespace(n);
            }
          }
          op.ret = clock++;
        } else {
          // no effect on the objects; must only be safe
          switch (q.in(0, 6)) {
            case 0: rc->getAllSenders(n); break;
            case 1: rc->getAllSendersIds(n); break;
            case 2: rc->getAllReceivers(n); break;
            case 3: rc->hasSenderQuota(n); break;
            case 4: {
              int32_t a, b, c;
              rc->getCounts(a, b, c);
              break;
            }
            case 5: rc->updateMaxSendersLimit("none", 3); break;
            case 6: rc->requireRegistration(strict); break;
          }
          continue;
        }
        log[t].push_back({key, op});
      }
    });
  }
  for (auto& x : th) {
    x.join();
  }
  if (overG) {
    hk::fail("conc-global-limit", desc);
  }
  // per identifier histories
  map<string, vector<Op>> by;
  for (auto& l : log) {
    for (auto& x : l) {
      if (x.second.kind != Op::CLEAR) {
        by[x.first].push_back(x.second);
      }
    }
  }
  uint64_t hh = 7;
  int nops = 0;
  for (auto& b : by) {
    string n = b.first.substr(2, b.first.find('/', 2) - 2);
    bool snd = b.first[0] == 's';
    for (auto& l : log) {
      for (auto& x : l) {
        if (x.second.kind == Op::CLEAR &&
            (x.first == "*" || x.first == "N/" + n || x.first == (snd ? "S/" : "R/") + n)) {
          b.second.push_back(x.second);
        }
      }
    }
    nops += b.second.size();
    hk::evalOnly();
    for (auto& q : b.second) {
      hh = hk::h64(hk::fmt("%d%ld%ld%d", q.kind, q.inv, q.ret, q.code)) ^ hh * 31;
    }
    if (b.second.size() > 20) {
      hk::count("history_too_long");
    } else if (!linearizable(b.second)) {
      string s;
      std::sort(b.second.begin(), b.second.end(), [](const Op& x, const Op& y) { return x.inv < y.inv; });
      for (auto& q : b.second) {
        s += hk::fmt(" [%ld-%ld %s code %d obj %lx]", q.inv, q.ret,
                     q.kind == Op::CREATE ? "create" : q.kind == Op::RELEASE ? "release" : q.kind == Op::GET ? "get" : "clear",
                     q.code, (long)q.obj & 0xffffff);
      }
      hk::fail("not-linearizable", desc + " " + b.first + s);
    } else {
      hk::count("histories_linearizable");
    }
  }
  hk::count("conc_ops", nops);
  // at rest the counts must equal what is there
  int32_t a, s, v;
  rc->getCounts(a, s, v);
  size_t es = 0, er = 0;
  for (int i = 0; i < NN; ++i) {
    string n = "n" + std::to_string(i);
    size_t x = rc->getAllSenders(n).size(), y = rc->getAllReceivers(n).size();
    es += x;
    er += y;
    if (nl > 0 && (x > (size_t)nl || y > (size_t)nl)) {
      hk::fail("conc-namespace-limit", desc + hk::fmt(" %zu %zu", x, y));
    }
  }
  if ((int)es != s || (int)er != v || (gl > 0 && (s > gl || v > gl))) {
    hk::fail("conc-counts", desc + hk::fmt(" counts %d %d, objects %zu %zu", s, v, es, er));
  }
  for (int i = 0; i < NN; ++i) {
    string n = "n" + std::to_string(i);
    rc->releaseAllReceivers(n);
    rc->releaseAllSenders(n);
  }
  rc->getCounts(a, s, v);
  if (s || v) {
    hk::fail("conc-counts-nonzero", desc + hk::fmt(" %d %d after releasing everything", s, v));
  } else {
    rc.reset();
  }
  if (s || v) {
    rc.release();  // its destructor would abort
  }
  hk::eval(hh);
}

// --------------------------------------------------------- high level calls
struct Flag : IAbortChecker {
  std::atomic<bool> f{false};
  bool shouldAbort() const override {
    return f;
  }
};
struct MyWdt : Wdt {
  MyWdt() : Wdt() {
    initializeWdtInternal("t");
  }
};
static void counts(Wdt& w, int& s, int& v) {
  int32_t a, b, c;
  w.getWdtResourceController()->getCounts(a, b, c);
  s = b;
  v = c;
}
static void high(hk::Rng& r, int which) {
  MyWdt w;
  auto& o = w.getWdtOptions();
  o.namespace_receiver_limit = 0;
  o.max_retries = 2;
  o.sleep_millis = 5;
  o.connect_timeout_millis = 200;
  o.max_accept_retries = 5;
  o.accept_timeout_millis = 20;
  o.accept_window_millis = 50;
  int s, v;
  string what;
  switch (which) {
    case 0: {  // a sender that cannot be initialised
      auto q = request("x", "d");
      if (r.p(50)) {
        q.directory = "";
      } else {
        q.ports.clear();
      }
      ErrorCode c = w.wdtSend(q);
      counts(w, s, v);
      if (c == OK || s != 0) {
        hk::fail("send-init-failure-leaks", hk::fmt("%s, %d senders registered", errorCodeToStr(c).c_str(), s));
      }
      break;
    }
    case 1: {  // a receiver that cannot be initialised
      auto q = request("x", "d");
      q.directory = "";
      ErrorCode c = w.wdtReceiveStart("x", q, "id");
      counts(w, s, v);
      if (c == OK || v != 0) {
        hk::fail("receive-init-failure-leaks", hk::fmt("%s, %d receivers registered", errorCodeToStr(c).c_str(), v));
      }
      q = request("x", "d");
      q.directory = gDir + "/r";
      c = w.wdtReceiveStart("x", q, "id");
      if (c != OK) {
        hk::fail("receive-after-failed-init", errorCodeToStr(c));
      }
      w.wdtReceiveFinish("x", "id");
      counts(w, s, v);
      if (v != 0) {
        hk::fail("receive-finish-leaks", hk::fmt("%d receivers registered", v));
      }
      break;
    }
    case 2: {  // an error in the request
      auto q = request("x", "d");
      q.errorCode = URI_PARSE_ERROR;
      ErrorCode c = w.wdtSend(q), d = w.wdtReceiveStart("x", q, "id");
      counts(w, s, v);
      if (c == OK || d == OK || s || v) {
        hk::fail("erroneous-request", errorCodeToStr(c) + errorCodeToStr(d));
      }
      break;
    }
    case 3: {  // a full round, then a second with the same names
      for (int i = 0; i < 2; ++i) {
        auto q = request("x", "d");
        q.directory = gDir + "/r";
        o.overwrite = true;
        ErrorCode c = w.wdtReceiveStart("x", q, "id");
        if (c != OK) {
          hk::fail("receive-start", errorCodeToStr(c));
          return;
        }
        auto q2 = request("x", "d");
        if (w.wdtReceiveStart("x", q2, "id") != ALREADY_EXISTS) {
          hk::fail("receive-twice", "a second receiver for a live identifier");
        }
        counts(w, s, v);
        if (v != 1) {
          hk::fail("receive-count", hk::fmt("%d", v));
        }
        q.directory = gDir + "/s";
        ErrorCode d = w.wdtSend(q);
        ErrorCode e = w.wdtReceiveFinish("x", "id");
        counts(w, s, v);
        if (s || v) {
          hk::fail("round-leaks", hk::fmt("%d %d", s, v));
        }
        if (c != OK || d != OK || e != OK) {
          hk::fail("round-outcome", errorCodeToStr(d) + " " + errorCodeToStr(e));
        }
      }
      break;
    }
    case 4: {  // a new sender takes over the place of a running one
      o.avg_mbytes_per_sec = 0.5;
      auto q = request("x", "d");
      q.directory = gDir + "/r4";
      o.overwrite = true;
      if (w.wdtReceiveStart("x", q, "id") != OK) {
        hk::fail("receive-start", "4");
        return;
      }
      auto q1 = q;
      q1.directory = gDir + "/s";
      std::thread t([&] { w.wdtSend(q1); });
      auto q2 = q;
      q2.directory = gDir + "/s2";
      q2.transferId = "other";
      for (int i = 0; i < 200; ++i) {
        counts(w, s, v);
        if (s == 1) {
          break;
        }
        usleep(1000);
      }
      usleep(20000);
      SenderPtr p;
      ErrorCode c = w.createWdtSender(q2, nullptr, true, p);
      t.join();
      counts(w, s, v);
      auto now = w.getWdtResourceController()->getSender("x", Wdt::getSenderIdentifier(q2));
      if (c == OK && (s != 1 || now != p)) {
        hk::fail("taken-over-sender-released",
                 hk::fmt("the aborted sender removed its successor: %d senders registered", s));
      }
      hk::count(c == OK ? "takeovers" : "takeover_refused");
      w.releaseWdtSender(q2);
      w.getWdtResourceController()->getReceiver("x", "id")->abort(ABORTED_BY_APPLICATION);
      w.wdtReceiveFinish("x", "id");
      counts(w, s, v);
      if (s || v) {
        hk::fail("takeover-leaks", hk::fmt("%d %d", s, v));
      }
      break;
    }
    case 5: {  // finished senders and receivers are stale, running ones are not
      auto q = request("x", "d");
      q.directory = gDir + "/r";
      o.overwrite = true;
      auto* rc = w.getWdtResourceController();
      if (w.wdtReceiveStart("x", q, "id") != OK) {
        hk::fail("receive-start", "5");
        return;
      }
      vector<string> ids;
      rc->releaseStaleReceivers("x", ids);
      counts(w, s, v);
      auto rv = rc->getReceiver("x", "id");
      if (rv && !rv->isStale() && (v != 1 || !ids.empty())) {
        hk::fail("stale-running", "a running receiver was released as stale");
      }
      SenderPtr p;
      q.directory = gDir + "/s";
      if (w.createWdtSender(q, nullptr, false, p) != OK) {
        hk::fail("create-sender", "5");
        return;
      }
      rc->releaseStaleSenders("x", ids);
      if (!ids.empty()) {
        hk::fail("stale-not-started-sender", ids[0]);
      }
      auto rep = p->transfer();
      rc->releaseStaleSenders("x", ids);
      counts(w, s, v);
      if (ids.size() != 1 || s != 0) {
        hk::fail("stale-finished", hk::fmt("%zu released, %d left", ids.size(), s));
      }
      if (rv) {
        rv->finish();
      }
      rc->releaseStaleReceivers("x", ids);
      counts(w, s, v);
      if (v != 0) {
        hk::fail("stale-finished-receiver", hk::fmt("%d left", v));
      }
      break;
    }
  }
  hk::eval(hk::h64(hk::fmt("high %d", which)) + r.next());
  hk::count(hk::fmt("high_%d", which));
}

int main(int argc, char** argv) {
  hk::init();
  FLAGS_minloglevel = 4;
  string mode = hk::sarg(argc, argv, "mode");
  gDir = hk::sarg(argc, argv, "dir");
  long seed = hk::arg(argc, argv, "seed", 1), n = hk::arg(argc, argv, "n", 100);
  long from = hk::arg(argc, argv, "from", 0);
  for (long i = from; i < from + n; ++i) {
    hk::Rng r(seed * 1000003 + i);
    HK_CTX("mode=%s seed=%ld from=%ld n=1", mode.c_str(), seed, i);
    if (mode == "seq") {
      sequential(r);
    } else if (mode == "conc") {
      concurrent(r, i % 8 == 7);
    } else if (mode == "high") {
      high(r, i % 6);
    }
  }
  return hk::done();
}
