// LD_PRELOAD monitor and fault injector for file and socket system calls.
//   FIO_ROOT   only files whose path starts with this are "tracked"
//   FIO_TRACE  file that gets one line per tracked operation (total order)
//   FIO_CRASH  n:m  kill the process at the n-th tracked mutating operation,
//              m = b before it, a after it, p after half of a write
//   FIO_FAIL   op:n:errno[,..]  the n-th tracked operation of that kind fails
//   FIO_SHORT  permille:seed    short reads/writes on sockets and tracked files
//   FIO_EINTR  permille:seed    EINTR returns on the same calls
//   FIO_SKIPW  positioned writes are only recorded, not done
//   FIO_DELAY  permille:usec    sleeps before tracked operations
//   FIO_DENY   path[:path..]     these can not be opened, listed or looked at
//   FIO_SLOWDIR usec            listing a tracked directory takes that long
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int skipw = 0, slowdir = 0;
static const char* deny = 0;
static int trace_fd = -1, crash_at = 0, short_pm = 0, eintr_pm = 0, delay_pm = 0, delay_us = 0;
static char crash_mode = 'a';
static const char* root = 0;
static size_t root_len = 0;
static char fails[512];
static atomic_uint rnd_state = 12345;
static int n_mut = 0;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static int inited = 0;
static struct { char op[16]; int n, err, seen; } frules[16];
static int nrules = 0;

static unsigned rnd(void) {
  unsigned x = atomic_fetch_add(&rnd_state, 0x9e3779b9u);
  x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16;
  return x;
}
__attribute__((constructor)) static void init(void) {
  if (inited) return;
  inited = 1;
  root = getenv("FIO_ROOT");
  if (root) root_len = strlen(root);
  const char* s;
  if ((s = getenv("FIO_TRACE")))
    trace_fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (trace_fd >= 0) { int d = fcntl(trace_fd, F_DUPFD_CLOEXEC, 900); if (d >= 0) { close(trace_fd); trace_fd = d; } }
  if ((s = getenv("FIO_CRASH"))) { crash_at = atoi(s); const char* c = strchr(s, ':'); if (c) crash_mode = c[1]; }
  skipw = getenv("FIO_SKIPW") != 0;
  deny = getenv("FIO_DENY");
  if ((s = getenv("FIO_SLOWDIR"))) slowdir = atoi(s);
  if ((s = getenv("FIO_SHORT"))) { short_pm = atoi(s); const char* c = strchr(s, ':'); if (c) rnd_state = atoi(c + 1) * 7919u + 1; }
  if ((s = getenv("FIO_EINTR"))) { eintr_pm = atoi(s); const char* c = strchr(s, ':'); if (c) rnd_state += atoi(c + 1) * 104729u; }
  if ((s = getenv("FIO_DELAY"))) { delay_pm = atoi(s); const char* c = strchr(s, ':'); if (c) delay_us = atoi(c + 1); }
  if ((s = getenv("FIO_FAIL"))) {
    strncpy(fails, s, sizeof fails - 1);
    char* sv; for (char* t = strtok_r(fails, ",", &sv); t && nrules < 16; t = strtok_r(0, ",", &sv)) {
      if (sscanf(t, "%15[a-z_]:%d:%d", frules[nrules].op, &frules[nrules].n, &frules[nrules].err) == 3) nrules++;
    }
  }
}
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); init(); f; })

static int tracked_path(const char* p) {
  return root && p && !strncmp(p, root, root_len);
}
static int denied(const char* p) {
  size_t n = p ? strlen(p) : 0;
  while (n > 1 && p[n - 1] == '/') n--;
  for (const char* d = deny; d && *d; ) {
    const char* e = strchrnul(d, ':');
    if ((size_t)(e - d) == n && !memcmp(d, p, n)) return 1;
    d = *e ? e + 1 : e;
  }
  return 0;
}
static int fd_path(int fd, char* out) {
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  if (n < 0) return 0;
  out[n] = 0;
  return 1;
}
static int abs_path(int dirfd, const char* p, char* out) {
  if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return 1; }
  char base[PATH_MAX];
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
  else if (!fd_path(dirfd, base)) return 0;
  snprintf(out, PATH_MAX, "%s/%s", base, p);
  return 1;
}
static void rec(const char* op, const char* path, long long a, long long b, long long r) {
  if (trace_fd < 0) return;
  char buf[PATH_MAX + 200];
  int n = snprintf(buf, sizeof buf, "%s\t%s\t%lld\t%lld\t%lld\t%ld\t%d\n", op, path, a, b, r, syscall(SYS_gettid), n_mut);
  if (n > (int)sizeof buf) n = sizeof buf;
  syscall(SYS_write, trace_fd, buf, n);
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
static void enter(void) { pthread_mutex_lock(&mu); if (delay_pm && (int)(rnd() % 1000) < delay_pm) { pthread_mutex_unlock(&mu); usleep(delay_us); pthread_mutex_lock(&mu);} }
static void leave(void) { pthread_mutex_unlock(&mu); }
// returns errno to inject or 0; counts a mutating operation; may not return
static int pre(const char* op, int mut) {
  for (int i = 0; i < nrules; i++)
    if (!strcmp(frules[i].op, op) && ++frules[i].seen == frules[i].n) return frules[i].err;
  if (mut) { n_mut++; if (crash_at && n_mut == crash_at && crash_mode == 'b') { rec("crash", op, 0, 0, 0); die(); } }
  return 0;
}
static void post(const char* op) { if (crash_at && n_mut == crash_at && crash_mode != 'b') { rec("crash", op, 0, 0, 0); die(); } }
static int is_sock(int fd) { struct stat st; return !fstat(fd, &st) && S_ISSOCK(st.st_mode); }

DIR* opendir(const char* p) {
  __typeof__(&opendir) f = REAL(opendir);
  if (denied(p)) { rec("fail", p, EACCES, 0, -1); errno = EACCES; return 0; }
  if (slowdir && tracked_path(p)) usleep(slowdir);
  return f(p);
}
int lstat(const char* p, struct stat* b) {
  __typeof__(&lstat) f = REAL(lstat);
  if (denied(p)) { rec("fail", p, EACCES, 0, -1); errno = EACCES; return -1; }
  return f(p, b);
}
ssize_t read(int fd, void* b, size_t n) {
  __typeof__(&read) f = REAL(read);
  if ((short_pm || eintr_pm) && n > 1) {
    char p[PATH_MAX];
    if (is_sock(fd) || (root && fd_path(fd, p) && tracked_path(p))) {
      if (eintr_pm && (int)(rnd() % 1000) < eintr_pm && is_sock(fd)) { errno = EINTR; return -1; }
      if (short_pm && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % (n > 4096 && rnd() % 2 ? 4096 : n);
    }
  }
  return f(fd, b, n);
}
static ssize_t do_pread(int fd, void* b, size_t n, off_t o) {
  __typeof__(&pread) f = REAL(pread);
  char p[PATH_MAX];
  if (root && (short_pm || nrules || delay_pm) && fd_path(fd, p) && tracked_path(p)) {
    enter();
    int e = pre("pread", 0);
    if (e) { rec("fail", p, e, n, -1); leave(); errno = e; return -1; }
    leave();
    // direct reads are never short in the middle of a file
    if (short_pm && n > 1 && !(fcntl(fd, F_GETFL) & O_DIRECT) && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % n;
  }
  return f(fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
ssize_t recv(int fd, void* b, size_t n, int fl) {
  __typeof__(&recv) f = REAL(recv);
  if (n > 1) {
    if (eintr_pm && (int)(rnd() % 1000) < eintr_pm) { errno = EINTR; return -1; }
    if (short_pm && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % n;
  }
  return f(fd, b, n, fl);
}
static ssize_t do_write(int fd, const void* b, size_t n, off_t off, int positioned) {
  __typeof__(&write) fw = REAL(write);
  __typeof__(&pwrite) fp = REAL(pwrite);
  char p[PATH_MAX];
  if (!root && !short_pm && !eintr_pm) return positioned ? fp(fd, b, n, off) : fw(fd, b, n);
  int tr = root && fd_path(fd, p) && tracked_path(p);
  if (!tr) {
    if ((short_pm || eintr_pm) && n > 1 && is_sock(fd)) {
      if (eintr_pm && (int)(rnd() % 1000) < eintr_pm) { errno = EINTR; return -1; }
      if (short_pm && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % n;
    }
    return positioned ? fp(fd, b, n, off) : fw(fd, b, n);
  }
  enter();
  const char* op = positioned ? "pwrite" : "write";
  int e = pre("write", 1);
  if (e) { rec("fail", p, e, n, -1); leave(); errno = e; return -1; }
  if (short_pm && n > 1 && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % n;
  if (crash_at && n_mut == crash_at && crash_mode == 'p') n = n / 2;
  if (skipw && positioned) { rec(op, p, off, n, n); leave(); return n; }
  if (!positioned) off = lseek(fd, 0, SEEK_CUR);
  ssize_t r = positioned ? fp(fd, b, n, off) : fw(fd, b, n);
  int se = errno;
  if (!positioned) { off_t now = lseek(fd, 0, SEEK_CUR); if (r >= 0) off = now - r; }
  rec(op, p, off, n, r);
  post(op);
  leave();
  errno = se;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t send(int fd, const void* b, size_t n, int fl) {
  __typeof__(&send) f = REAL(send);
  if (n > 1) {
    if (eintr_pm && (int)(rnd() % 1000) < eintr_pm) { errno = EINTR; return -1; }
    if (short_pm && (int)(rnd() % 1000) < short_pm) n = 1 + rnd() % n;
  }
  return f(fd, b, n, fl);
}
#define FDOP(name, proto, args, opname, A, B)                        \
  int name proto {                                                   \
    __typeof__(&name) f = REAL(name);                                \
    char p[PATH_MAX];                                                \
    if (!root || !fd_path(fd, p) || !tracked_path(p)) return f args; \
    enter();                                                         \
    int e = pre(opname, 1);                                          \
    if (e) { rec("fail", p, e, 0, -1); leave(); ERR }                \
    int r = f args;                                                  \
    int se = errno;                                                  \
    rec(opname, p, (long long)(A), (long long)(B), r);               \
    post(opname);                                                    \
    leave();                                                         \
    errno = se;                                                      \
    return r;                                                        \
  }
#define ERR errno = e; return -1;
FDOP(fsync, (int fd), (fd), "fsync", 0, 0)
FDOP(fdatasync, (int fd), (fd), "fsync", 0, 0)
FDOP(ftruncate, (int fd, off_t l), (fd, l), "truncate", l, 0)
FDOP(ftruncate64, (int fd, off64_t l), (fd, l), "truncate", l, 0)
FDOP(sync_file_range, (int fd, off64_t o, off64_t l, unsigned fl), (fd, o, l, fl), "syncrange", o, l)
#undef ERR
#define ERR return e;
FDOP(posix_fallocate, (int fd, off_t o, off_t l), (fd, o, l), "fallocate", o, l)
FDOP(posix_fallocate64, (int fd, off64_t o, off64_t l), (fd, o, l), "fallocate", o, l)

static int do_open(int dirfd, const char* path, int fl, mode_t m, int which) {
  static int (*fo)(int, const char*, int, ...) = 0;
  if (!fo) fo = (int (*)(int, const char*, int, ...))dlsym(RTLD_NEXT, "openat");
  init();
  char p[PATH_MAX];
  if (path && denied(path)) { rec("fail", path, EACCES, 0, -1); errno = EACCES; return -1; }
  if (!root || !path || !abs_path(dirfd, path, p) || !tracked_path(p)) return fo(dirfd, path, fl, m);
  enter();
  int mut = (fl & (O_CREAT | O_TRUNC)) != 0;
  int e = pre((fl & O_DIRECTORY) ? "opendir" : "open", mut);
  if (e) { rec("fail", p, e, 0, -1); leave(); errno = e; return -1; }
  int r = fo(dirfd, path, fl, m);
  int se = errno;
  rec("open", p, fl, 0, r);
  if (mut) post("open");
  leave();
  errno = se;
  return r;
}
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl, m, 0); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m, 0); }
int openat(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, fl, m, 0); }
int openat64(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(d, p, fl | O_LARGEFILE, m, 0); }
#undef ERR
#define PATHOP(name, proto, args, opname)                                          \
  int name proto {                                                                 \
    __typeof__(&name) f = REAL(name);                                              \
    char p[PATH_MAX];                                                              \
    if (!root || !abs_path(AT_FDCWD, path, p) || !tracked_path(p)) return f args;  \
    enter();                                                                       \
    int e = pre(opname, 1);                                                        \
    if (e) { rec("fail", p, e, 0, -1); leave(); errno = e; return -1; }            \
    int r = f args;                                                                \
    int se = errno;                                                                \
    rec(opname, p, 0, 0, r);                                                       \
    post(opname);                                                                  \
    leave();                                                                       \
    errno = se;                                                                    \
    return r;                                                                      \
  }
PATHOP(unlink, (const char* path), (path), "unlink")
PATHOP(rename, (const char* path, const char* to), (path, to), "rename")
PATHOP(mkdir, (const char* path, mode_t m), (path, m), "mkdir")
PATHOP(rmdir, (const char* path), (path), "rmdir")
PATHOP(truncate, (const char* path, off_t l), (path, l), "truncate")
PATHOP(truncate64, (const char* path, off64_t l), (path, l), "truncate")
int close(int fd) {
  __typeof__(&close) f = REAL(close);
  char p[PATH_MAX];
  if (fd == trace_fd && fd >= 0) { errno = EBADF; return -1; }
  if (!root || !fd_path(fd, p) || !tracked_path(p)) return f(fd);
  enter();
  int e = pre("close", 0);
  int r = f(fd);
  int se = errno;
  rec("close", p, fd, 0, r);
  leave();
  if (e) { errno = e; return -1; }
  errno = se;
  return r;
}
