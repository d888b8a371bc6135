/* LD_PRELOAD shim: cooperative scheduling points and crash/fault injection.
 *
 * Dormant until vshim_activate() is called (in a forked worker).  From then on
 * every file-system call below `prefix` made by the activating thread, every
 * lock operation on such a file and every sleep first sends one packet
 *     "<op> <path>"
 * over the control socket and waits for a one-byte command:
 *     g  perform the call            k  SIGKILL self before the call
 *     a  perform it, then SIGKILL    t  (write) write half the bytes, SIGKILL
 *     f  fail the call with ENOSPC
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define M_READ 1   /* opens for reading, directory listings */
#define M_WRITE 2  /* opens for writing, write, close after write, rename, mkdir, unlink */
#define M_LOCK 4
#define M_STAT 8
#define M_SLEEP 16
#define MAXFD 8192

static volatile int active = 0;
static int ctl = -1;
static unsigned mask = 0;
static char prefix[PATH_MAX];
static size_t plen;
static long owner_tid;
static char *fdpath[MAXFD];

#define REAL(name) ({ static __typeof__(&name) _p; if (!_p) _p = dlsym(RTLD_NEXT, #name); _p; })

static int mine(void) { return active && syscall(SYS_gettid) == owner_tid; }

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

static char talk(const char *op, const char *path) {
  char buf[PATH_MAX + 64];
  int saved = errno;
  int n = snprintf(buf, sizeof buf, "%s %s", op, path ? path : "");
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  char c = 'g';
  for (;;) {
    long r = syscall(SYS_sendto, ctl, buf, (size_t)n, MSG_NOSIGNAL, NULL, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) { active = 0; errno = saved; return 'g'; }
    break;
  }
  for (;;) {
    long r = syscall(SYS_recvfrom, ctl, &c, (size_t)1, 0, NULL, NULL);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) { active = 0; c = 'g'; }
    break;
  }
  if (c == 'k') die();
  errno = saved;
  return c;
}

/* absolute path of `p` if below the prefix, else NULL */
static const char *under(const char *p, char *buf) {
  if (!p) return NULL;
  if (p[0] == '/') {
    if (strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0)) return p;
    return NULL;
  }
  if (!getcwd(buf, PATH_MAX)) return NULL;
  size_t l = strlen(buf);
  if (l + 2 + strlen(p) >= PATH_MAX) return NULL;
  buf[l] = '/';
  strcpy(buf + l + 1, p);
  if (strncmp(buf, prefix, plen) == 0 && (buf[plen] == '/' || buf[plen] == 0)) return buf;
  return NULL;
}

static void track(int fd, const char *path) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]);
  fdpath[fd] = path ? strdup(path) : NULL;
}
static const char *tracked(int fd) { return (fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL; }

int vshim_activate(int fd, const char *pre, unsigned m) {
  ctl = fd;
  strncpy(prefix, pre, sizeof prefix - 1);
  plen = strlen(prefix);
  mask = m;
  owner_tid = syscall(SYS_gettid);
  memset(fdpath, 0, sizeof fdpath);
  active = 1;
  return 1;
}
void vshim_pause(void) { active = 0; }
void vshim_resume(void) { if (ctl >= 0) active = 1; }
void vshim_deactivate(void) { active = 0; ctl = -1; }
int vshim_point(const char *name) { if (!mine()) return 0; return talk("point", name); }

static int writable(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static int pre_open(const char *abs, int flags, char *cmd) {
  *cmd = 'g';
  if (writable(flags)) {
    if (mask & M_WRITE) *cmd = talk((flags & O_TRUNC) ? "trunc" : (flags & O_APPEND) ? "openap" : "openw", abs);
  } else if (mask & M_READ) *cmd = talk("openr", abs);
  if (*cmd == 'f') { errno = ENOSPC; return -1; }
  return 0;
}

#define OPEN_BODY(CALL)                                                       \
  mode_t mode = 0;                                                            \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  char b[PATH_MAX]; const char *abs = mine() ? under(path, b) : NULL;         \
  if (!abs) return CALL;                                                      \
  char cmd; if (pre_open(abs, flags, &cmd)) return -1;                        \
  int fd = CALL;                                                              \
  if (cmd == 'a') die();                                                      \
  if (fd >= 0) track(fd, writable(flags) ? abs : abs);                        \
  return fd;

int open(const char *path, int flags, ...) { OPEN_BODY(REAL(open)(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(REAL(open64)(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat)(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat64)(d, path, flags, mode)) }

static int fflags(const char *m) {
  int f = (m[0] == 'r') ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : (m[0] == 'w') ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
  return f;
}
#define FOPEN_BODY(CALL)                                                      \
  char b[PATH_MAX]; const char *abs = mine() ? under(path, b) : NULL;         \
  if (!abs) return CALL;                                                      \
  char cmd; if (pre_open(abs, fflags(m), &cmd)) return NULL;                  \
  FILE *f = CALL;                                                             \
  if (cmd == 'a') die();                                                      \
  if (f) track(fileno(f), abs);                                               \
  return f;
FILE *fopen(const char *path, const char *m) { FOPEN_BODY(REAL(fopen)(path, m)) }
FILE *fopen64(const char *path, const char *m) { FOPEN_BODY(REAL(fopen64)(path, m)) }

int dup(int fd) {
  int r = REAL(dup)(fd);
  if (r >= 0 && mine()) track(r, tracked(fd));
  return r;
}

ssize_t write(int fd, const void *buf, size_t n) {
  const char *p = (mine() && (mask & M_WRITE)) ? tracked(fd) : NULL;
  if (!p) return REAL(write)(fd, buf, n);
  char c = talk("write", p);
  if (c == 'f') { errno = ENOSPC; return -1; }
  if (c == 't') { if (n / 2) REAL(write)(fd, buf, n / 2); die(); }
  ssize_t r = REAL(write)(fd, buf, n);
  if (c == 'a') die();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  const char *p = (mine() && (mask & M_WRITE)) ? tracked(fd) : NULL;
  if (!p) return REAL(writev)(fd, v, n);
  char c = talk("write", p);
  if (c == 'f') { errno = ENOSPC; return -1; }
  if (c == 't') { if (n > 0 && v[0].iov_len / 2) REAL(write)(fd, v[0].iov_base, v[0].iov_len / 2); die(); }
  ssize_t r = REAL(writev)(fd, v, n);
  if (c == 'a') die();
  return r;
}

int close(int fd) {
  if (mine() && tracked(fd)) track(fd, NULL);
  return REAL(close)(fd);
}
int fclose(FILE *f) {
  int fd = f ? fileno(f) : -1;
  const char *p = mine() ? tracked(fd) : NULL;
  if (p) {
    /* stdio-buffered data (numpy tofile) reach the file here */
    if (mask & M_WRITE) { char c = talk("fclose", p); if (c == 't') die(); if (c == 'a') { fflush(f); die(); } }
    track(fd, NULL);
  }
  return REAL(fclose)(f);
}

#define PATH1(NAME, KIND, OPN, ...)                                           \
  char b[PATH_MAX]; const char *abs = (mine() && (mask & KIND)) ? under(path, b) : NULL; \
  if (!abs) return REAL(NAME)(__VA_ARGS__);                                   \
  char c = talk(OPN, abs);                                                    \
  if (c == 'f') { errno = ENOSPC; return -1; }                                \
  int r = REAL(NAME)(__VA_ARGS__);                                            \
  if (c == 'a') die();                                                        \
  return r;

int mkdir(const char *path, mode_t m) { PATH1(mkdir, M_WRITE, "mkdir", path, m) }
int mkdirat(int d, const char *path, mode_t m) { PATH1(mkdirat, M_WRITE, "mkdir", d, path, m) }
int unlink(const char *path) { PATH1(unlink, M_WRITE, "unlink", path) }
int unlinkat(int d, const char *path, int f) { PATH1(unlinkat, M_WRITE, "unlink", d, path, f) }
int rmdir(const char *path) { PATH1(rmdir, M_WRITE, "rmdir", path) }
int rename(const char *o, const char *path) { PATH1(rename, M_WRITE, "rename", o, path) }
int renameat(int a, const char *o, int d, const char *path) { PATH1(renameat, M_WRITE, "rename", a, o, d, path) }
int link(const char *o, const char *path) { PATH1(link, M_WRITE, "link", o, path) }
int symlink(const char *o, const char *path) { PATH1(symlink, M_WRITE, "symlink", o, path) }
int truncate64(const char *path, off64_t n) { PATH1(truncate64, M_WRITE, "trunc", path, n) }

DIR *opendir(const char *path) {
  char b[PATH_MAX]; const char *abs = (mine() && (mask & M_READ)) ? under(path, b) : NULL;
  if (abs) talk("list", abs);
  return REAL(opendir)(path);
}

extern int __xstat64(int v, const char *path, struct stat64 *s);
extern int __lxstat64(int v, const char *path, struct stat64 *s);
int __xstat64(int v, const char *path, struct stat64 *s) { PATH1(__xstat64, M_STAT, "stat", v, path, s) }
int __lxstat64(int v, const char *path, struct stat64 *s) { PATH1(__lxstat64, M_STAT, "stat", v, path, s) }

int flock(int fd, int op) {
  const char *p = (mine() && (mask & M_LOCK)) ? tracked(fd) : NULL;
  if (!p) return REAL(flock)(fd, op);
  int kind = op & ~LOCK_NB;
  char c = talk(kind == LOCK_UN ? "unlock" : kind == LOCK_SH ? "locksh" : "lock", p);
  for (;;) {
    int r = REAL(flock)(fd, kind == LOCK_UN ? op : (op | LOCK_NB));
    if (r == 0) { if (c == 'a') die(); return 0; }
    if (errno == EWOULDBLOCK && kind != LOCK_UN && !(op & LOCK_NB)) { c = talk("blocked", p); continue; }
    return r;
  }
}

static int fcntl_common(int (*real)(int, int, ...), int fd, int cmd, void *arg) {
  const char *p = (mine() && (mask & M_LOCK) && (cmd == F_SETLK || cmd == F_SETLKW)) ? tracked(fd) : NULL;
  if (!p) return real(fd, cmd, arg);
  struct flock *fl = arg;
  char c = talk(fl->l_type == F_UNLCK ? "unlock" : fl->l_type == F_RDLCK ? "locksh" : "lock", p);
  for (;;) {
    int r = real(fd, F_SETLK, arg);
    if (r == 0) { if (c == 'a') die(); return 0; }
    if ((errno == EAGAIN || errno == EACCES) && cmd == F_SETLKW) { c = talk("blocked", p); continue; }
    return r;
  }
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_common(REAL(fcntl), fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return fcntl_common(REAL(fcntl64), fd, cmd, a); }

int clock_nanosleep(clockid_t id, int fl, const struct timespec *t, struct timespec *rem) {
  if (mine() && (mask & M_SLEEP)) { talk("sleep", ""); return 0; }
  return REAL(clock_nanosleep)(id, fl, t, rem);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (mine() && (mask & M_SLEEP)) { talk("sleep", ""); return 0; }
  return REAL(nanosleep)(t, rem);
}
