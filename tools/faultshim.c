// LD_PRELOAD shim that replays the fault choices of a counterexample on the real program.
// VERIF_FAULTS: comma-separated choices (0 ok, 1 short write, 2 EINTR, 3 error, 4 killed, 5 short read, 6 EINTR, 7 error), consumed
// by the same calls that consume them in the symbolic execution, and logged one byte each.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/syscall.h>
static const char *p; static int logfd = -1, inited;
static void init(void) {
  if (inited) return; inited = 1;
  p = getenv("VERIF_FAULTS");
  const char *l = getenv("VERIF_FAULT_LOG");
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
static int choice(void) {
  init();
  if (!p || !*p) return 0;
  int v = atoi(p);
  while (*p && *p != ',') p++;
  if (*p) p++;
  if (logfd >= 0) syscall(SYS_write, logfd, "x", 1);
  if (v == 4) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
  return v;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd != 2) switch (choice()) { case 1: n = (n + 1) / 2; break; case 2: errno = EINTR; return -1; case 3: errno = ENOSPC; return -1; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd != 2) switch (choice()) {
    case 1: { size_t n = 0, k = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; char *t = malloc(n ? n : 1); for (int i = 0; i < c; i++) { memcpy(t + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; } ssize_t r = syscall(SYS_write, fd, t, (n + 1) / 2); free(t); return r; }
    case 2: errno = EINTR; return -1; case 3: errno = ENOSPC; return -1; }
  return syscall(SYS_writev, fd, v, c);
}
static size_t left(int fd) { struct stat s; off_t p; if (fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) { p = lseek(fd, 0, SEEK_CUR); return p < s.st_size ? s.st_size - p : 0; } return (size_t)-1; }
ssize_t read(int fd, void *b, size_t n) {
  switch (choice()) { case 5: { size_t l = left(fd); if (l == (size_t)-1) { l = n; } if (n > l) n = l; n = (n + 1) / 2; break; } case 6: errno = EINTR; return -1; case 7: errno = EIO; return -1; }
  return syscall(SYS_read, fd, b, n);
}
static int wr(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT); }
#define OPEN(NAME) int NAME(const char *f, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
  if (wr(fl) && strncmp(f, "/dev/", 5) && choice() == 3) { errno = EACCES; return -1; } return syscall(SYS_openat, AT_FDCWD, f, fl, m); }
OPEN(open) OPEN(open64)
int rename(const char *a, const char *b) { if (choice() == 3) { errno = EACCES; return -1; } return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int unlink(const char *a) { if (choice() == 3) { errno = EACCES; return -1; } return syscall(SYS_unlinkat, AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { if (!(fl & AT_REMOVEDIR) && choice() == 3) { errno = EACCES; return -1; } return syscall(SYS_unlinkat, d, a, fl); }
// programs it runs have no faults
__attribute__((constructor)) static void alone(void) { init(); unsetenv("LD_PRELOAD"); }
int mkdir(const char *a, mode_t m) { if (choice() == 3) { errno = EACCES; return -1; } return syscall(SYS_mkdirat, AT_FDCWD, a, m); }
int ftruncate64(int fd, off_t n) { if (choice() == 3) { errno = ENOSPC; return -1; } return syscall(SYS_ftruncate, fd, n); }
