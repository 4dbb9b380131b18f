// Fault injection at the system calls of one process, by LD_PRELOAD.
// IOF_BOX: only files below this directory, and standard output, are touched.
// IOF_PLAN: "kind:n:action;..." (n-th call of that kind on such files). IOF_LOG: what happened.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, CLOSE, MMAP, NKIND };
static const char *kName[NKIND] = {"open", "read", "write", "close", "mmap"};
static int count[NKIND], logfd = -2, full;
static char mine[1024];

static void say(int kind, const char *what, int fd) {
  if (logfd == -2) {
    const char *p = getenv("IOF_LOG");
    logfd = p ? (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666) : -1;
  }
  char b[160];
  int n = snprintf(b, sizeof b, "%s %d %s %s\n", kName[kind], count[kind] - 1, what, fd == 1 ? "stdout" : fd >= 0 && mine[fd] == 2 ? "out" : "in");
  if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}

static int errnoOf(const char *a) {
  static const struct { const char *n; int e; } t[] = {{"eio", EIO}, {"enospc", ENOSPC}, {"eintr", EINTR}, {"eacces", EACCES}, {"emfile", EMFILE},
                                                       {"enomem", ENOMEM}, {"edquot", EDQUOT}, {"eagain", EAGAIN}, {"enoent", ENOENT}};
  for (unsigned i = 0; i < sizeof t / sizeof *t; ++i)
    if (!strcmp(t[i].n, a)) return t[i].e;
  return 0;
}

// The action planned for this call, or 0.
static const char *act(int kind, int fd) {
  static char a[24];
  int n = count[kind]++;
  const char *p = getenv("IOF_PLAN");
  while (p && *p) {
    char k[12];
    int m;
    if (sscanf(p, "%11[^:]:%d:%23[^;]", k, &m, a) == 3 && m == n && !strcmp(k, kName[kind])) {
      say(kind, a, fd);
      if (!strcmp(a, "kill")) syscall(SYS_kill, getpid(), SIGKILL);
      return a;
    }
    p = strchr(p, ';');
    if (p) ++p;
  }
  say(kind, "-", fd);
  return 0;
}

static int fails(const char *a) {
  int e = a ? errnoOf(a) : 0;
  if (e) errno = e;
  return e;
}

static int inBox(const char *path) {
  const char *b = getenv("IOF_BOX");
  return b && !strncmp(path, b, strlen(b));
}

static int openAt(int dir, const char *path, int flags, mode_t mode) {
  int w = (flags & O_ACCMODE) != O_RDONLY, box = inBox(path);
  if (box) {
    const char *a = act(OPEN, -1);
    if (fails(a)) return -1;
  }
  int fd = (int)syscall(SYS_openat, dir, path, flags, mode);
  if (fd >= 0 && fd < 1024) mine[fd] = box ? 1 + w : 0;
  return fd;
}

#define MODE(last) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, last); mode = va_arg(l, int); va_end(l); }
int open(const char *path, int flags, ...) { MODE(flags) return openAt(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return openAt(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return openAt(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return openAt(d, path, flags, mode); }

static int ours(int fd) { return fd == 1 || (fd >= 0 && fd < 1024 && mine[fd]); }

static ssize_t doRead(int fd, void *b, size_t n, off_t at, int pos) {
  if (ours(fd)) {
    const char *a = act(READ, fd);
    if (fails(a)) return -1;
    if (a && !strcmp(a, "short") && n > 1) n = n / 2;
    if (a && !strcmp(a, "one") && n > 1) n = 1;
  }
  return pos ? syscall(SYS_pread64, fd, b, n, at) : syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return doRead(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, 1); }

static ssize_t doWrite(int fd, const void *b, size_t n, off_t at, int pos) {
  if (ours(fd)) {
    const char *a = act(WRITE, fd);
    if (full) { errno = ENOSPC; return -1; }
    if (fails(a)) return -1;
    if (a && !strcmp(a, "short") && n > 1) n = n / 2;
    if (a && !strcmp(a, "one") && n > 1) n = 1;
    if (a && !strcmp(a, "full")) { full = 1; if (n > 1) n = n / 2; }
  }
  return pos ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return doWrite(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return doWrite(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return doWrite(fd, b, n, o, 1); }

int close(int fd) {
  const char *a = ours(fd) ? act(CLOSE, fd) : 0;
  int r = (int)syscall(SYS_close, fd);
  if (fd >= 0 && fd < 1024) mine[fd] = 0;
  return fails(a) ? -1 : r;
}

static void *doMmap(void *p, size_t n, int prot, int flags, int fd, off_t o) {
  if (ours(fd) && fails(act(MMAP, fd))) return MAP_FAILED;
  return (void *)syscall(SYS_mmap, p, n, prot, flags, fd, o);
}
void *mmap(void *p, size_t n, int prot, int flags, int fd, off_t o) { return doMmap(p, n, prot, flags, fd, o); }
void *mmap64(void *p, size_t n, int prot, int flags, int fd, off_t o) { return doMmap(p, n, prot, flags, fd, o); }
