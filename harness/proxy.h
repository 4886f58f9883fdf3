// A TCP relay that injects faults at exact byte positions, and records what
// passed.  Rules: port:conn:dir:pos:action[:param]   (port/conn may be *)
//   dir s = sender to receiver, r = receiver to sender
//   rst   reset both sides          fin   orderly close of both sides
//   stall wait <param> ms           hole  drop the next <param> bytes
//   flip  xor byte with <param>     refuse (pos ignored) close at accept
//   dup   send the last <param> bytes again        black  swallow all further
#pragma once
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "hk.h"

struct Rule {
  int port = -1, conn = -1;
  char dir = 's';
  int64_t pos = 0;
  std::string action;
  int64_t param = 0;
  bool fired = false;
};
struct ConnRec {
  int port = 0, conn = 0;
  int64_t bytes[2] = {0, 0};
  std::string fired;
};

class Proxy {
 public:
  std::vector<Rule> rules;
  std::string capture;  // directory for raw captures
  int chunk = 0;        // max bytes relayed at once (0 = as read)
  int delayUs = 0;      // pause between chunks
  uint64_t seed = 1;
  std::atomic<int64_t> total[2];
  std::function<void(int64_t)> onBytes;  // called with total s->r bytes

  Proxy() {
    total[0] = total[1] = 0;
  }
  static Rule parse(const std::string& s) {
    std::vector<std::string> f;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, ':')) {
      f.push_back(x);
    }
    Rule r;
    r.port = f[0] == "*" ? -1 : atoi(f[0].c_str());
    r.conn = f[1] == "*" ? -1 : atoi(f[1].c_str());
    r.dir = f[2][0];
    r.pos = atoll(f[3].c_str());
    r.action = f[4];
    r.param = f.size() > 5 ? atoll(f[5].c_str()) : 0;
    return r;
  }
  // returns the relay's port for a target port
  int add(const std::string& host, int target) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 64)) {
      perror("proxy listen");
      abort();
    }
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr*)&a, &l);
    lfds_.push_back(fd);
    int idx = (int)lfds_.size() - 1;
    targets_.push_back(target);
    nconn_.push_back(0);
    return ntohs(a.sin_port);
  }
  void start() {
    for (size_t i = 0; i < lfds_.size(); ++i) {
      threads_.emplace_back([this, i] { acceptLoop((int)i); });
    }
  }
  void stop() {
    stop_ = true;
    for (auto& t : threads_) {
      t.join();
    }
    for (;;) {
      std::vector<std::thread> ct;
      {
        std::lock_guard<std::mutex> l(m_);
        ct.swap(connThreads_);
      }
      if (ct.empty()) {
        break;
      }
      for (auto& t : ct) {
        t.join();
      }
    }
    for (int fd : lfds_) {
      close(fd);
    }
    lfds_.clear();
  }
  std::vector<ConnRec> records() {
    std::lock_guard<std::mutex> l(m_);
    std::vector<ConnRec> r;
    for (auto& p : recs_) {
      r.push_back(*p);
    }
    return r;
  }

 private:
  void acceptLoop(int idx) {
    while (!stop_) {
      pollfd p{lfds_[idx], POLLIN, 0};
      if (poll(&p, 1, 20) <= 0) {
        continue;
      }
      int c = accept4(lfds_[idx], nullptr, nullptr, SOCK_CLOEXEC);
      if (c < 0) {
        continue;
      }
      int n = nconn_[idx]++;
      auto rec = std::make_shared<ConnRec>();
      rec->port = idx;
      rec->conn = n;
      {
        std::lock_guard<std::mutex> l(m_);
        recs_.push_back(rec);
      }
      bool refused = false;
      for (auto& r : rules) {
        if (r.action == "refuse" && match(r, idx, n)) {
          refused = true;
        }
      }
      if (refused) {
        std::lock_guard<std::mutex> l(m_);
        rec->fired += "refuse;";
        linger lg{1, 0};
        setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
        close(c);
        continue;
      }
      std::lock_guard<std::mutex> l(m_);
      connThreads_.emplace_back([this, c, idx, n, rec] { relay(c, idx, n, rec); });
    }
  }
  static bool match(const Rule& r, int port, int conn) {
    return (r.port < 0 || r.port == port) && (r.conn < 0 || r.conn == conn);
  }
  struct Dir {
    int from, to;
    std::string buf;     // pending
    int64_t pos = 0;     // bytes taken from the source
    bool eof = false, black = false, shut = false;
    int64_t hole = 0;
    std::string hist;
    int cap = -1;
    int64_t stallUntil = 0;
  };
  static int64_t nowMs() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000ll + t.tv_nsec / 1000000;
  }
  void relay(int c, int idx, int n, std::shared_ptr<ConnRec> rec) {
    int t = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(targets_[idx]);
    linger lg{1, 0};
    fcntl(t, F_SETFL, O_NONBLOCK);
    bool up = connect(t, (sockaddr*)&a, sizeof a) == 0;
    while (!up && (errno == EINPROGRESS || errno == EINTR || errno == EAGAIN) && !stop_) {
      // a full backlog leaves the connection pending: wait, but give up when
      // the client has gone or the relay is stopped
      pollfd p[2] = {{t, POLLOUT, 0}, {c, POLLRDHUP, 0}};
      if (poll(p, 2, 20) > 0) {
        if (p[0].revents) {
          int e = 0;
          socklen_t el = sizeof e;
          getsockopt(t, SOL_SOCKET, SO_ERROR, &e, &el);
          up = e == 0;
          break;
        }
        if (p[1].revents & (POLLERR | POLLHUP)) {
          break;
        }
      }
      errno = EINPROGRESS;
    }
    if (!up) {
      setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
      close(c);
      close(t);
      return;
    }
    int one = 1;
    for (int fd : {c, t}) {
      fcntl(fd, F_SETFL, O_NONBLOCK);
      setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    hk::Rng rng(seed * 131 + idx * 17 + n);
    std::vector<Rule> rs;
    for (auto& r : rules) {
      if (match(r, idx, n) && r.action != "refuse") {
        rs.push_back(r);
      }
    }
    Dir d[2];
    d[0].from = c, d[0].to = t, d[1].from = t, d[1].to = c;
    if (!capture.empty()) {
      for (int i = 0; i < 2; ++i) {
        std::string f = capture + hk::fmt("/%d.%d.%c", idx, n, i ? 'r' : 's');
        d[i].cap = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0600);
      }
    }
    bool reset = false, fin = false;
    while (!reset && !fin) {
      pollfd p[4];
      int np = 0;
      int map[4];
      int64_t now = nowMs();
      bool allDone = true;
      for (int i = 0; i < 2; ++i) {
        if (!d[i].eof && d[i].buf.empty() && d[i].stallUntil <= now) {
          p[np] = {d[i].from, POLLIN, 0};
          map[np++] = i;
        }
        if (!d[i].buf.empty() && d[i].stallUntil <= now) {
          p[np] = {d[i].to, POLLOUT, 0};
          map[np++] = i + 2;
        }
        if (!d[i].eof || !d[i].buf.empty()) {
          allDone = false;
        }
      }
      if (allDone) {
        break;
      }
      if (stop_) {
        break;
      }
      poll(p, np, np ? 20 : 5);
      for (int k = 0; k < np && !reset && !fin; ++k) {
        if (!p[k].revents) {
          continue;
        }
        int i = map[k] & 1;
        Dir& q = d[i];
        if (map[k] < 2) {
          char b[65536];
          size_t want = sizeof b;
          if (chunk) {
            want = 1 + rng.next() % chunk;
            if (delayUs) {
              usleep(delayUs);
            }
          }
          // stop exactly at the next rule position
          for (auto& r : rs) {
            if (!r.fired && r.dir == (i ? 'r' : 's') && r.pos >= q.pos) {
              int64_t gap = r.pos - q.pos;
              if (gap > 0 && (int64_t)want > gap) {
                want = gap;
              }
              if (gap == 0) {
                want = 1;
              }
            }
          }
          ssize_t g = read(q.from, b, want);
          if (g < 0 && (errno == EAGAIN || errno == EINTR)) {
            continue;
          }
          if (g < 0) {
            reset = true;
            break;
          }
          if (g == 0) {
            q.eof = true;
            if (q.buf.empty() && !q.shut) {
              shutdown(q.to, SHUT_WR);
              q.shut = true;
            }
            continue;
          }
          for (auto& r : rs) {
            if (!r.fired && r.dir == (i ? 'r' : 's') && r.pos == q.pos) {
              r.fired = true;
              {
                std::lock_guard<std::mutex> l(m_);
                rec->fired += r.action + ";";
              }
              if (r.action == "rst") {
                reset = true;
              } else if (r.action == "fin") {
                fin = true;
              } else if (r.action == "stall") {
                q.stallUntil = nowMs() + r.param;
              } else if (r.action == "hole") {
                q.hole = r.param;
              } else if (r.action == "flip") {
                b[0] ^= (char)(r.param ? r.param : 1);
              } else if (r.action == "black") {
                q.black = true;
              } else if (r.action == "dup") {
                size_t m = std::min<size_t>(q.hist.size(), r.param);
                q.buf.append(q.hist.substr(q.hist.size() - m));
              }
            }
          }
          if (reset || fin) {
            break;
          }
          q.pos += g;
          if (q.cap >= 0) {
            (void)!write(q.cap, b, g);
          }
          rec->bytes[i] += g;
          int64_t tot = (total[i] += g);
          if (i == 0 && onBytes) {
            onBytes(tot);
          }
          q.hist.append(b, g);
          if (q.hist.size() > 8192) {
            q.hist.erase(0, q.hist.size() - 4096);
          }
          if (q.black) {
            continue;
          }
          ssize_t off = 0;
          if (q.hole > 0) {
            off = std::min<int64_t>(g, q.hole);
            q.hole -= off;
          }
          q.buf.append(b + off, g - off);
        } else {
          ssize_t w = ::send(q.to, q.buf.data(), q.buf.size(), MSG_NOSIGNAL);
          if (w < 0 && (errno == EAGAIN || errno == EINTR)) {
            continue;
          }
          if (w < 0) {
            reset = true;
            break;
          }
          q.buf.erase(0, w);
          if (q.buf.empty() && q.eof && !q.shut) {
            shutdown(q.to, SHUT_WR);
            q.shut = true;
          }
        }
      }
    }
    if (reset) {
      setsockopt(c, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
      setsockopt(t, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    }
    close(c);
    close(t);
    for (auto& q : d) {
      if (q.cap >= 0) {
        close(q.cap);
      }
    }
  }
  std::vector<int> lfds_, targets_, nconn_;
  std::vector<std::thread> threads_, connThreads_;
  std::vector<std::shared_ptr<ConnRec>> recs_;
  std::mutex m_;
  std::atomic<bool> stop_{false};
};
