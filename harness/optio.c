/* LD_PRELOAD: writes down the system calls by which options show.
 * OPT_TRACE: file to append to; OPT_ROOT: only files below it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static int tfd = -1;
static const char* root;
__attribute__((constructor)) static void init() {
  const char* s = getenv("OPT_TRACE");
  root = getenv("OPT_ROOT");
  if (!s || !root) return;
  int d = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (d >= 0) { tfd = fcntl(d, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, d); }
}
static void say(const char* f, ...) {
  if (tfd < 0) return;
  int e = errno;
  char b[4600]; va_list a; va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a); va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, tfd, b, n);
  errno = e;
}
/* the path of a descriptor below root, relative to it, or null */
static const char* path(int fd, char* b, size_t n) {
  int e = errno;
  char l[40]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(l, b, n - 1);
  errno = e;
  if (r <= 0 || tfd < 0) return 0;
  b[r] = 0;
  size_t k = strlen(root);
  if (strncmp(b, root, k) || b[k] != '/') return 0;
  return b + k + 1;
}
static int family(int fd) { int v = -1; socklen_t l = sizeof v; int e = errno; getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &v, &l); errno = e; return v; }
#define REAL(r, n, ...) static r (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, n)
#define P(fd) char b_[4200]; const char* p_ = path(fd, b_, sizeof b_)

int setsockopt(int fd, int lv, int nm, const void* v, socklen_t l) {
  REAL(int, "setsockopt", int, int, int, const void*, socklen_t);
  int r = real(fd, lv, nm, v, l);
  if (l == sizeof(int)) say("sockopt %d %d %d %d %d\n", family(fd), lv, nm, *(const int*)v, r);
  else if (l == 16) say("socktime %d %ld\n", nm, ((const long*)v)[0] * 1000 + ((const long*)v)[1] / 1000);
  return r;
}
int listen(int fd, int n) {
  REAL(int, "listen", int, int);
  int r = real(fd, n);
  struct sockaddr_storage s; socklen_t l = sizeof s; memset(&s, 0, sizeof s); getsockname(fd, (struct sockaddr*)&s, &l);
  say("listen %d %d %d %d\n", s.ss_family, ntohs(((struct sockaddr_in*)&s)->sin_port), n, r);
  return r;
}
int connect(int fd, const struct sockaddr* s, socklen_t l) {
  REAL(int, "connect", int, const struct sockaddr*, socklen_t);
  if (s->sa_family == AF_INET || s->sa_family == AF_INET6) say("connect %d %d\n", s->sa_family, ntohs(((struct sockaddr_in*)s)->sin_port));
  return real(fd, s, l);
}
static int op(const char* nm, const char* p, int fl, mode_t m) {
  int r = syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (root && !strncmp(p, root, strlen(root))) say("open %d %d %s\n", fl, r < 0 ? -errno : 0, p + strlen(root) + 1);
  return r;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char* p, int fl, ...) { MODE return op("open", p, fl, m); }
int open64(const char* p, int fl, ...) { MODE return op("open", p, fl, m); }
int posix_fallocate(int fd, off_t o, off_t n) { REAL(int, "posix_fallocate", int, off_t, off_t); P(fd); if (p_) say("falloc %ld %ld %s\n", (long)o, (long)n, p_); return real(fd, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { REAL(int, "posix_fallocate64", int, off64_t, off64_t); P(fd); if (p_) say("falloc %ld %ld %s\n", (long)o, (long)n, p_); return real(fd, o, n); }
int fsync(int fd) { REAL(int, "fsync", int); P(fd); if (p_) say("fsync %s\n", p_); return real(fd); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) { REAL(int, "sync_file_range", int, off64_t, off64_t, unsigned); P(fd); if (p_) say("sfr %ld %ld %s\n", (long)o, (long)n, p_); return real(fd, o, n, f); }
int posix_fadvise(int fd, off_t o, off_t n, int a) { REAL(int, "posix_fadvise", int, off_t, off_t, int); P(fd); if (p_) say("fadv %ld %ld %d %s\n", (long)o, (long)n, a, p_); return real(fd, o, n, a); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { REAL(int, "posix_fadvise64", int, off64_t, off64_t, int); P(fd); if (p_) say("fadv %ld %ld %d %s\n", (long)o, (long)n, a, p_); return real(fd, o, n, a); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { REAL(ssize_t, "pread", int, void*, size_t, off_t); ssize_t r = real(fd, b, n, o); P(fd); if (p_) say("pread %ld %ld %ld %s\n", (long)n, (long)o, (long)r, p_); return r; }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void*, size_t, off64_t); ssize_t r = real(fd, b, n, o); P(fd); if (p_) say("pread %ld %ld %ld %s\n", (long)n, (long)o, (long)r, p_); return r; }
ssize_t write(int fd, const void* b, size_t n) { REAL(ssize_t, "write", int, const void*, size_t); ssize_t r = real(fd, b, n); int e = errno; P(fd); if (p_) say("write %ld %s\n", (long)r, p_); errno = e; return r; }
