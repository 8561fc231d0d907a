/* LD_PRELOAD: counts the file-changing calls below VERIF_ROOT and makes one of them fail or be the last.
 * VERIF_AT=k  : the k-th call (from 1); VERIF_HOW: kill (before it), half (a write is done half, then death),
 *               after (death right after it), fail (this one fails), full (it and all later ones fail, as on a full disk)
 * VERIF_LOG   : a file to which one line per call is appended.
 * VERIF_GATE  : instead, a socket: every access below VERIF_ROOT (reading too) is announced on it with one line and waits for one byte. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

static const char *root, *how;
static int at, count, logfd = -1, gatefd = -1, ready, broken;
static unsigned char tracked[4096];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static void setup(void) {
  if (ready) return;
  ready = 1;
  root = getenv("VERIF_ROOT");
  how = getenv("VERIF_HOW");
  const char *a = getenv("VERIF_AT"), *l = getenv("VERIF_LOG");
  at = a ? atoi(a) : 0;
  if (!how) how = "";
  const char *g = getenv("VERIF_GATE");
  if (g) {
    struct sockaddr_un u = {.sun_family = AF_UNIX};
    strncpy(u.sun_path, g, sizeof u.sun_path - 1);
    gatefd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (connect(gatefd, (struct sockaddr *)&u, sizeof u)) _exit(97);
  }
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static int below(const char *p) {
  if (!root || !p) return 0;
  if (p[0] != '/') return 1;
  size_t n = strlen(root);
  return !strncmp(p, root, n) && (p[n] == '/' || !p[n]);
}
static void note(const char *op, const char *p, const char *what) {
  char b[1200];
  int n = snprintf(b, sizeof b, "%d %s %.900s%s\n", count, op, p ? p : "", what);
  if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
static void announce(const char *op, const char *p) {
  char b[1200], c;
  int n = snprintf(b, sizeof b, "%s %.900s", op, p ? p : "");
  for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = '?';
  b[n++] = '\n';
  send(gatefd, b, n, MSG_NOSIGNAL);
  if (recv(gatefd, &c, 1, 0) != 1) _exit(98);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
/* 0: go on, 1: fail, 2: half then die, 3: die afterwards */
static int gate(const char *op, const char *p) {
  setup();
  pthread_mutex_lock(&lock);
  int r = 0;
  if (gatefd >= 0) {
    announce(op, p);
    pthread_mutex_unlock(&lock);
    return 0;
  }
  count++;
  if (broken) { note(op, p, " FULL"); r = 1; }
  else if (at && count == at) {
    note(op, p, " FIRED");
    if (!strcmp(how, "kill")) die();
    if (!strcmp(how, "fail")) r = 1;
    if (!strcmp(how, "full")) r = broken = 1;
    if (!strcmp(how, "half")) { if (strcmp(op, "write")) die(); r = 2; }
    if (!strcmp(how, "after")) r = 3;
  } else note(op, p, "");
  pthread_mutex_unlock(&lock);
  return r;
}
/* accesses that change nothing count only where every access is announced */
static void look(const char *op, const char *p) { setup(); if (gatefd >= 0 && below(p)) gate(op, p); }
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)
#define FAIL(v) do { errno = ENOSPC; return v; } while (0)
#define AFTER(g, r) do { if ((g) == 3) die(); return r; } while (0)

static int opened(int fd, const char *path, int flags) {
  if (fd >= 0 && fd < 4096) tracked[fd] = (flags & O_ACCMODE) != O_RDONLY && below(path);
  return fd;
}
static int writing(const char *path, int flags) {
  setup();
  return below(path) && ((flags & O_CREAT) || (flags & O_TRUNC));
}
#define OPEN(name, sig, path, args) \
  int name sig { \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
    REAL(name); \
    int g = writing(path, flags) ? gate("open", path) : (look("read", path), 0); \
    if (g == 1) FAIL(-1); \
    int r = opened(real args, path, flags); \
    AFTER(g, r); \
  }
OPEN(open, (const char *path, int flags, ...), path, (path, flags, m))
OPEN(open64, (const char *path, int flags, ...), path, (path, flags, m))
OPEN(openat, (int d, const char *path, int flags, ...), path, (d, path, flags, m))
OPEN(openat64, (int d, const char *path, int flags, ...), path, (d, path, flags, m))

#define DATA(name, sig, half, args) \
  ssize_t name sig { \
    REAL(name); setup(); \
    if (fd < 0 || fd >= 4096 || !tracked[fd]) return real args; \
    int g = gate("write", ""); \
    if (g == 1) FAIL(-1); \
    if (g == 2) { half; die(); } \
    ssize_t r = real args; \
    AFTER(g, r); \
  }
DATA(write, (int fd, const void *b, size_t n), real(fd, b, n / 2), (fd, b, n))
DATA(pwrite, (int fd, const void *b, size_t n, off_t o), real(fd, b, n / 2, o), (fd, b, n, o))
DATA(pwrite64, (int fd, const void *b, size_t n, off64_t o), real(fd, b, n / 2, o), (fd, b, n, o))
DATA(writev, (int fd, const struct iovec *v, int n), syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2), (fd, v, n))
int close(int fd) { REAL(close); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return real(fd); }

#define CALL(name, sig, path, args) \
  int name sig { \
    REAL(name); setup(); \
    int g = below(path) ? gate(#name, path) : 0; \
    if (g == 1) FAIL(-1); \
    int r = real args; \
    AFTER(g, r); \
  }
CALL(rename, (const char *a, const char *b), b, (a, b))
CALL(renameat, (int x, const char *a, int y, const char *b), b, (x, a, y, b))
CALL(renameat2, (int x, const char *a, int y, const char *b, unsigned f), b, (x, a, y, b, f))
CALL(link, (const char *a, const char *b), b, (a, b))
CALL(linkat, (int x, const char *a, int y, const char *b, int f), b, (x, a, y, b, f))
CALL(symlink, (const char *a, const char *b), b, (a, b))
static int is_new(const char *p) { struct stat s; return syscall(SYS_newfstatat, AT_FDCWD, p, &s, 0) != 0; }
int mkdir(const char *p, mode_t m) {
  REAL(mkdir); setup();
  int g = below(p) && (gatefd >= 0 || is_new(p)) ? gate("mkdir", p) : 0;
  if (g == 1) FAIL(-1);
  int r = real(p, m);
  AFTER(g, r);
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(mkdirat); setup();
  int g = below(p) && (gatefd >= 0 || is_new(p)) ? gate("mkdir", p) : 0;
  if (g == 1) FAIL(-1);
  int r = real(d, p, m);
  AFTER(g, r);
}
#define LOOK(type, name, sig, path, args) type name sig { REAL(name); look(#name, path); return real args; }
LOOK(int, statx, (int d, const char *p, int f, unsigned m, struct statx *s), (p && *p ? p : "/"), (d, p, f, m, s))
LOOK(int, unlink, (const char *p), p, (p))
LOOK(int, unlinkat, (int d, const char *p, int f), p, (d, p, f))
LOOK(int, rmdir, (const char *p), p, (p))
typedef struct __dirstream DIR_;
LOOK(DIR_ *, opendir, (const char *p), p, (p))
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); return real(fd, n); }
