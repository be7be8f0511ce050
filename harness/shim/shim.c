// LD_PRELOAD event recorder and fault injector for the dnglab binary.
//   VSHIM_ROOT   only paths below this directory are of interest
//   VSHIM_LOG    append one line per mutating call: op<TAB>path[<TAB>path2]<TAB>result
//   VSHIM_FAULT  op:nth:errno[:short]  fail the nth (1-based) call of that op below the root
//                ops: create write futimens unlink mkdir ; write with 'sticky' keeps failing
//   VSHIM_DELAY  op:microseconds       sleep before every such op (schedule perturbation)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <stdatomic.h>
#include <unistd.h>

static const char *root, *logp;
static char f_op[16];
static int f_nth, f_errno, f_sticky;
static char d_op[16];
static int d_us;
static _Atomic int counter;
static _Atomic char tracked[65536];

__attribute__((constructor)) static void init(void) {
  root = getenv("VSHIM_ROOT");
  logp = getenv("VSHIM_LOG");
  const char *f = getenv("VSHIM_FAULT");
  if (f) {
    char s[16] = "";
    sscanf(f, "%15[a-z]:%d:%d:%15s", f_op, &f_nth, &f_errno, s);
    f_sticky = !strcmp(s, "sticky");
  }
  const char *d = getenv("VSHIM_DELAY");
  if (d) sscanf(d, "%15[a-z]:%d", d_op, &d_us);
}

static void log_line(const char *op, const char *a, const char *b, long rc) {
  if (!logp) return;
  char buf[8400];
  int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\t%ld\n", op, a ? a : "", b ? b : "", rc);
  int fd = syscall(SYS_openat, AT_FDCWD, logp, O_WRONLY | O_APPEND | O_CREAT, 0666);
  if (fd >= 0) {
    syscall(SYS_write, fd, buf, (size_t)n);
    syscall(SYS_close, fd);
  }
}
static void absolute(const char *p, char *out, size_t n) {
  if (p[0] == '/') {
    snprintf(out, n, "%s", p);
    return;
  }
  char cwd[4096];
  long r = syscall(SYS_getcwd, cwd, sizeof cwd);
  if (r <= 0) cwd[0] = 0;
  snprintf(out, n, "%s/%s", cwd, p);
}
static int below(const char *p) { return root && !strncmp(p, root, strlen(root)); }
static int fault(const char *op) {
  if (d_us && !strcmp(op, d_op)) usleep(d_us);
  if (!f_nth || strcmp(op, f_op)) return 0;
  int k = atomic_fetch_add(&counter, 1) + 1;
  if (k == f_nth || (f_sticky && k > f_nth)) {
    log_line("fault", op, "", k);
    return f_errno;
  }
  return 0;
}
static void fdpath(int fd, char *out, size_t n) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(l, out, n - 1);
  out[r > 0 ? r : 0] = 0;
}

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
  char abs[8192];
  absolute(path, abs, sizeof abs);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (wr && dfd == AT_FDCWD && below(abs)) {
    int e = fault("create");
    if (e) {
      errno = e;
      return -1;
    }
  }
  int fd = syscall(SYS_openat, dfd, path, flags, mode);
  int sv = errno;
  if (fd >= 0 && fd < 65536) atomic_store(&tracked[fd], 0);
  if (wr && dfd == AT_FDCWD && below(abs)) {
    if (fd >= 0 && fd < 65536) atomic_store(&tracked[fd], 1);
    log_line((flags & O_EXCL) ? "create_excl" : (flags & O_TRUNC) ? "truncate_open" : "write_open", abs, "", fd >= 0 ? 0 : -sv);
  }
  errno = sv;
  return fd;
}
#define OPEN(name) \
  int name(const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(AT_FDCWD, path, flags, m); \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(d, path, flags, m); \
  }
OPENAT(openat)
OPENAT(openat64)

static int wfault(int fd) {
  if (fd >= 0 && fd < 65536 && atomic_load(&tracked[fd])) return fault("write");
  return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  int e = wfault(fd);
  if (e) {
    errno = e;
    return -1;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  int e = wfault(fd);
  if (e) {
    errno = e;
    return -1;
  }
  return syscall(SYS_writev, fd, v, c);
}
int close(int fd) {
  if (fd >= 0 && fd < 65536) atomic_store(&tracked[fd], 0);
  return syscall(SYS_close, fd);
}
static int trunc_(int fd, off_t n) {
  char p[8192];
  fdpath(fd, p, sizeof p);
  if (below(p)) log_line("ftruncate", p, "", n);
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return trunc_(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_(fd, n); }
int futimens(int fd, const struct timespec ts[2]) {
  char p[8192];
  fdpath(fd, p, sizeof p);
  if (below(p)) {
    int e = fault("futimens");
    if (e) {
      errno = e;
      return -1;
    }
    log_line("futimens", p, "", 0);
  }
  return syscall(SYS_utimensat, fd, NULL, ts, 0);
}
static int gone(const char *op, int d, const char *path, int flags) {
  char abs[8192];
  absolute(path, abs, sizeof abs);
  if (d == AT_FDCWD && below(abs)) {
    int e = fault("unlink");
    if (e) {
      errno = e;
      return -1;
    }
  }
  int r = syscall(SYS_unlinkat, d, path, flags);
  int sv = errno;
  if (d == AT_FDCWD && below(abs)) log_line(op, abs, "", r ? -sv : 0);
  errno = sv;
  return r;
}
int unlink(const char *p) { return gone("unlink", AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return gone("unlinkat", d, p, f); }
int rmdir(const char *p) { return gone("rmdir", AT_FDCWD, p, AT_REMOVEDIR); }
int rename(const char *a, const char *b) {
  char x[8192], y[8192];
  absolute(a, x, sizeof x);
  absolute(b, y, sizeof y);
  int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
  int sv = errno;
  if (below(x) || below(y)) log_line("rename", x, y, r ? -sv : 0);
  errno = sv;
  return r;
}
int mkdir(const char *p, mode_t m) {
  char x[8192];
  absolute(p, x, sizeof x);
  if (below(x)) {
    int e = fault("mkdir");
    if (e) {
      errno = e;
      return -1;
    }
  }
  int r = syscall(SYS_mkdirat, AT_FDCWD, p, m);
  int sv = errno;
  if (below(x)) log_line("mkdir", x, "", r ? -sv : 0);
  errno = sv;
  return r;
}
