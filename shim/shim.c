// LD_PRELOAD shim: turns every libc call through which the vimwiki binary
// touches the outside world (files, directories, clocks, randomness, pipes,
// helper processes, standard streams) into a request to the simulator over one
// socket.  The process blocks until the simulator answers, so the simulator
// alone decides who runs, what each call returns and what time it is.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "ops.h"

#define EXPORT __attribute__((visibility("default")))
#define SIMFD_BASE 1000
#define IS_SIM(fd) ((fd) >= SIMFD_BASE || ((fd) >= 0 && (fd) <= 2))

static int sock = -1;
static uint64_t rnd_state;
static int vpid = 4242;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)

static void die(void) { raw6(SYS_exit_group, 199, 0, 0, 0, 0, 0); for (;;) ; }

static void send_all(struct iovec *iov, int n) {
  while (n > 0) {
    long r = RAW(SYS_writev, sock, iov, n);
    if (r == -EINTR) continue;
    if (r <= 0) die();
    while (n > 0 && (size_t)r >= iov->iov_len) { r -= iov->iov_len; iov++; n--; }
    if (n > 0) { iov->iov_base = (char *)iov->iov_base + r; iov->iov_len -= r; }
  }
}
static void recv_all(void *p, size_t n) {
  char *c = p;
  while (n) {
    long r = RAW(SYS_read, sock, c, n);
    if (r == -EINTR) continue;
    if (r <= 0) die();
    c += r; n -= r;
  }
}

struct req { uint32_t len, op; int64_t a[4]; };
struct rep { uint32_t len; int32_t err; int64_t ret; };

// One request; payload = p1 (n1 bytes) followed by p2 (n2 bytes).  The reply
// payload is copied to out (at most outcap bytes) or malloc'ed into *dyn.
static int64_t call(uint32_t op, int64_t a0, int64_t a1, int64_t a2, int64_t a3, const void *p1, size_t n1,
                    const void *p2, size_t n2, void *out, size_t outcap, char **dyn, size_t *outn) {
  struct req q = {(uint32_t)(n1 + n2), op, {a0, a1, a2, a3}};
  struct iovec iov[3] = {{&q, sizeof q}, {(void *)p1, n1}, {(void *)p2, n2}};
  struct rep r;
  pthread_mutex_lock(&mu);
  send_all(iov, 3);
  recv_all(&r, sizeof r);
  if (outn) *outn = r.len;
  if (r.len) {
    if (dyn) {
      *dyn = malloc(r.len + 1);
      recv_all(*dyn, r.len);
      (*dyn)[r.len] = 0;
    } else if (r.len <= outcap) {
      recv_all(out, r.len);
    } else die();
  } else if (dyn) *dyn = NULL;
  pthread_mutex_unlock(&mu);
  if (r.err) { errno = r.err; return -1; }
  return r.ret;
}
static int64_t path_call(uint32_t op, int64_t dirfd, const char *path, int64_t a1, int64_t a2) {
  return call(op, dirfd, a1, a2, 0, path, strlen(path), NULL, 0, NULL, 0, NULL, NULL);
}
static int64_t path2_call(uint32_t op, int64_t d1, const char *p1, int64_t d2, const char *p2, int64_t fl) {
  size_t n = strlen(p1) + 1;
  return call(op, d1, d2, fl, 0, p1, n, p2, strlen(p2), NULL, 0, NULL, NULL);
}

static uint64_t rnd(void) {
  uint64_t z = (rnd_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("SIM_SOCK");
  if (!s) die();
  sock = atoi(s);
  if ((s = getenv("SIM_RAND"))) rnd_state = strtoull(s, NULL, 10);
  if ((s = getenv("SIM_PID"))) vpid = atoi(s);
  unsetenv("SIM_SOCK");
  unsetenv("SIM_RAND");
  unsetenv("SIM_PID");
  unsetenv("LD_PRELOAD");
}

// ---------------------------------------------------------------- open/close
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  return (int)path_call(OP_OPEN, dirfd, path, flags, mode);
}
#define GETMODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { GETMODE(flags); return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { GETMODE(flags); return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { GETMODE(flags); return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { GETMODE(flags); return do_open(d, p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int64_t fd_call(uint32_t op, int fd, int64_t a1, int64_t a2) {
  return call(op, fd, a1, a2, 0, NULL, 0, NULL, 0, NULL, 0, NULL, NULL);
}
EXPORT int close(int fd) {
  if (!IS_SIM(fd)) { if (fd == sock) return 0; long r = RAW(SYS_close, fd, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  return (int)fd_call(OP_CLOSE, fd, 0, 0);
}
// ---------------------------------------------------------------- read/write
static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
  size_t got = 0;
  if (n > (1u << 20)) n = 1u << 20;
  return call(OP_READ, fd, (int64_t)n, off, 0, NULL, 0, NULL, 0, buf, n, NULL, &got);
}
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
  if (n > (16u << 20)) n = 16u << 20;
  return call(OP_WRITE, fd, (int64_t)n, off, 0, buf, n, NULL, 0, NULL, 0, NULL, NULL);
}
#define RET(r) do { long _r = (r); if (_r < 0) { errno = -_r; return -1; } return _r; } while (0)
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!IS_SIM(fd)) RET(RAW(SYS_read, fd, b, n)); return do_read(fd, b, n, -1); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!IS_SIM(fd)) RET(RAW(SYS_write, fd, b, n)); return do_write(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!IS_SIM(fd)) RET(RAW(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!IS_SIM(fd)) RET(RAW(SYS_writev, fd, v, c));
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *b = malloc(tot + 1), *p = b;
  for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
  ssize_t r = do_write(fd, b, tot, -1);
  int e = errno; free(b); errno = e;
  return r;
}
EXPORT off_t lseek(int fd, off_t o, int w) { if (!IS_SIM(fd)) RET(RAW(SYS_lseek, fd, o, w)); return fd_call(OP_LSEEK, fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { if (!IS_SIM(fd)) RET(RAW(SYS_lseek, fd, o, w)); return fd_call(OP_LSEEK, fd, o, w); }
EXPORT int ftruncate(int fd, off_t n) { return (int)fd_call(OP_FTRUNCATE, fd, n, 0); }
EXPORT int ftruncate64(int fd, off64_t n) { return (int)fd_call(OP_FTRUNCATE, fd, n, 0); }
EXPORT int truncate(const char *p, off_t n) { return (int)path_call(OP_TRUNCATE, AT_FDCWD, p, n, 0); }
EXPORT int truncate64(const char *p, off64_t n) { return (int)path_call(OP_TRUNCATE, AT_FDCWD, p, n, 0); }
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { errno = EOPNOTSUPP; return -1; }
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t l) { errno = EOPNOTSUPP; return -1; }
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { return EOPNOTSUPP; }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t l) { return EOPNOTSUPP; }
EXPORT int fsync(int fd) { return (int)fd_call(OP_FSYNC, fd, 0, 0); }
EXPORT int fdatasync(int fd) { return (int)fd_call(OP_FSYNC, fd, 1, 0); }
EXPORT int syncfs(int fd) { return (int)fd_call(OP_SYNC, 0, 0, 0); }
EXPORT void sync(void) { fd_call(OP_SYNC, 0, 0, 0); }
EXPORT int sync_file_range(int fd, off64_t a, off64_t b, unsigned f) { return 0; }
EXPORT int flock(int fd, int op) { return (int)fd_call(OP_FLOCK, fd, op, 0); }
EXPORT int posix_fadvise(int fd, off_t a, off_t b, int c) { return 0; }
EXPORT int posix_fadvise64(int fd, off64_t a, off64_t b, int c) { return 0; }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t n) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { errno = ENOSYS; return -1; }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { errno = EINVAL; return -1; }
EXPORT int isatty(int fd) { errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long arg = va_arg(ap, long); va_end(ap);
  if (IS_SIM(fd)) { if (req == FIONBIO) return 0; if (req == FIOCLEX) return 0; errno = ENOTTY; return -1; }
  RET(RAW(SYS_ioctl, fd, req, arg));
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (!IS_SIM(fd)) RET(RAW(SYS_fcntl, fd, cmd, arg));
  switch (cmd) {
  case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)fd_call(OP_DUP, fd, -1, 0);
  case F_GETFD: return (int)fd_call(OP_FDOK, fd, 0, 0) < 0 ? -1 : FD_CLOEXEC;
  case F_SETFD: return 0;
  case F_GETFL: return (int)fd_call(OP_GETFL, fd, 0, 0);
  case F_SETFL: return 0;
  case F_SETLK: case F_SETLKW: return 0;
  default: errno = EINVAL; return -1;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) { if (!IS_SIM(fd)) RET(RAW(SYS_dup, fd, 0, 0)); return (int)fd_call(OP_DUP, fd, -1, 0); }
EXPORT int dup2(int fd, int to) { if (!IS_SIM(fd) && !IS_SIM(to)) RET(RAW(SYS_dup2, fd, to, 0)); return (int)fd_call(OP_DUP, fd, to, 0); }
EXPORT int dup3(int fd, int to, int fl) { if (!IS_SIM(fd) && !IS_SIM(to)) RET(RAW(SYS_dup3, fd, to, fl)); return (int)fd_call(OP_DUP, fd, to, 0); }

// ---------------------------------------------------------------------- stat
struct wstat { uint64_t ino, mode, nlink, size; int64_t mt, mns; uint64_t dev, blocks; };
static int do_stat(int dirfd, const char *path, int flags, struct wstat *w) {
  if (path[0] == 0 && (flags & AT_EMPTY_PATH))
    return call(OP_FSTAT, dirfd, 0, 0, 0, NULL, 0, NULL, 0, w, sizeof *w, NULL, NULL) < 0 ? -1 : 0;
  return call(OP_STAT, dirfd, flags, 0, 0, path, strlen(path), NULL, 0, w, sizeof *w, NULL, NULL) < 0 ? -1 : 0;
}
static void fill(struct stat *s, struct wstat *w) {
  memset(s, 0, sizeof *s);
  s->st_ino = w->ino; s->st_mode = w->mode; s->st_nlink = w->nlink; s->st_size = w->size; s->st_dev = w->dev;
  s->st_blksize = 4096; s->st_blocks = w->blocks;
  s->st_mtim.tv_sec = s->st_atim.tv_sec = s->st_ctim.tv_sec = w->mt;
  s->st_mtim.tv_nsec = s->st_atim.tv_nsec = s->st_ctim.tv_nsec = w->mns;
}
static int stat_any(int dirfd, const char *p, int flags, struct stat *s) {
  struct wstat w; if (do_stat(dirfd, p, flags, &w) < 0) return -1; fill(s, &w); return 0;
}
EXPORT int stat(const char *p, struct stat *s) { return stat_any(AT_FDCWD, p, 0, s); }
EXPORT int stat64(const char *p, struct stat64 *s) { return stat_any(AT_FDCWD, p, 0, (struct stat *)s); }
EXPORT int lstat(const char *p, struct stat *s) { return stat_any(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, s); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return stat_any(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat *)s); }
EXPORT int fstat(int fd, struct stat *s) { if (!IS_SIM(fd)) RET(RAW(SYS_fstat, fd, s, 0)); return stat_any(fd, "", AT_EMPTY_PATH, s); }
EXPORT int fstat64(int fd, struct stat64 *s) { if (!IS_SIM(fd)) RET(RAW(SYS_fstat, fd, s, 0)); return stat_any(fd, "", AT_EMPTY_PATH, (struct stat *)s); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int f) { return stat_any(d, p, f, s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) { return stat_any(d, p, f, (struct stat *)s); }
EXPORT int statx(int d, const char *p, int f, unsigned mask, struct statx *x) {
  struct wstat w;
  const void *vp = p, *vx = x;  // declared nonnull: hide the test from the optimiser
  __asm__ volatile("" : "+r"(vp), "+r"(vx));
  if (!vp || !vx) { errno = EFAULT; return -1; }
  if (do_stat(d, p, f, &w) < 0) return -1;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_ino = w.ino; x->stx_mode = w.mode; x->stx_nlink = w.nlink; x->stx_size = w.size; x->stx_blksize = 4096;
  x->stx_blocks = w.blocks; x->stx_dev_minor = w.dev;
  x->stx_mtime.tv_sec = x->stx_atime.tv_sec = x->stx_ctime.tv_sec = w.mt;
  x->stx_mtime.tv_nsec = x->stx_atime.tv_nsec = x->stx_ctime.tv_nsec = w.mns;
  return 0;
}
EXPORT int access(const char *p, int m) { return (int)path_call(OP_ACCESS, AT_FDCWD, p, m, 0); }
EXPORT int faccessat(int d, const char *p, int m, int f) { return (int)path_call(OP_ACCESS, d, p, m, f); }
EXPORT int statfs(const char *p, struct statfs *b) { errno = ENOSYS; return -1; }
EXPORT int statfs64(const char *p, struct statfs64 *b) { errno = ENOSYS; return -1; }
EXPORT int statvfs(const char *p, struct statvfs *b) { errno = ENOSYS; return -1; }

// ----------------------------------------------------------------- namespace
EXPORT int mkdir(const char *p, mode_t m) { return (int)path_call(OP_MKDIR, AT_FDCWD, p, m, 0); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return (int)path_call(OP_MKDIR, d, p, m, 0); }
EXPORT int rmdir(const char *p) { return (int)path_call(OP_RMDIR, AT_FDCWD, p, 0, 0); }
EXPORT int unlink(const char *p) { return (int)path_call(OP_UNLINK, AT_FDCWD, p, 0, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return (int)path_call(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, d, p, 0, 0); }
EXPORT int remove(const char *p) { int r = (int)path_call(OP_UNLINK, AT_FDCWD, p, 0, 0); if (r < 0 && errno == EISDIR) return (int)path_call(OP_RMDIR, AT_FDCWD, p, 0, 0); return r; }
EXPORT int rename(const char *a, const char *b) { return (int)path2_call(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { return (int)path2_call(OP_RENAME, d, a, e, b, 0); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return (int)path2_call(OP_RENAME, d, a, e, b, f); }
EXPORT int link(const char *a, const char *b) { return (int)path2_call(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { return (int)path2_call(OP_LINK, d, a, e, b, f); }
EXPORT int symlink(const char *a, const char *b) { return (int)path2_call(OP_SYMLINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int symlinkat(const char *a, int e, const char *b) { return (int)path2_call(OP_SYMLINK, AT_FDCWD, a, e, b, 0); }
EXPORT int chmod(const char *p, mode_t m) { return (int)path_call(OP_CHMOD, AT_FDCWD, p, m, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { return (int)path_call(OP_CHMOD, d, p, m, 0); }
EXPORT int fchmod(int fd, mode_t m) { return (int)fd_call(OP_FCHMOD, fd, m, 0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { return 0; }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return 0; }
EXPORT int fchown(int fd, uid_t u, gid_t g) { return 0; }
EXPORT int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { return 0; }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  if (!p) return (int)fd_call(OP_FUTIMENS, d, t ? t[1].tv_sec : -1, t ? t[1].tv_nsec : 0);
  return (int)path_call(OP_UTIMENS, d, p, t ? t[1].tv_sec : -1, t ? t[1].tv_nsec : 0);
}
EXPORT int futimens(int fd, const struct timespec t[2]) { return (int)fd_call(OP_FUTIMENS, fd, t ? t[1].tv_sec : -1, t ? t[1].tv_nsec : 0); }
EXPORT mode_t umask(mode_t m) { return 022; }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  char *d; size_t l;
  if (call(OP_READLINK, AT_FDCWD, 0, 0, 0, p, strlen(p), NULL, 0, NULL, 0, &d, &l) < 0) return -1;
  if (l > n) l = n; memcpy(b, d, l); free(d); return l;
}
EXPORT ssize_t readlinkat(int f, const char *p, char *b, size_t n) {
  char *d; size_t l;
  if (call(OP_READLINK, f, 0, 0, 0, p, strlen(p), NULL, 0, NULL, 0, &d, &l) < 0) return -1;
  if (l > n) l = n; memcpy(b, d, l); free(d); return l;
}
EXPORT char *realpath(const char *p, char *res) {
  char *d;
  if (call(OP_REALPATH, AT_FDCWD, 0, 0, 0, p, strlen(p), NULL, 0, NULL, 0, &d, NULL) < 0) return NULL;
  if (res) { strcpy(res, d); free(d); return res; }
  return d;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
EXPORT char *getcwd(char *b, size_t n) {
  char *d;
  if (call(OP_GETCWD, 0, 0, 0, 0, NULL, 0, NULL, 0, NULL, 0, &d, NULL) < 0) return NULL;
  if (!b) return d;
  if (strlen(d) + 1 > n) { free(d); errno = ERANGE; return NULL; }
  strcpy(b, d); free(d); return b;
}
EXPORT int chdir(const char *p) { return (int)path_call(OP_CHDIR, AT_FDCWD, p, 0, 0); }
EXPORT int fchdir(int fd) { errno = ENOSYS; return -1; }

// --------------------------------------------------------------- directories
struct simdir { int fd; char *buf; size_t n, off; int eof; struct dirent64 de; };
static DIR *mkdirp(int fd) { struct simdir *d = calloc(1, sizeof *d); d->fd = fd; return (DIR *)d; }
EXPORT DIR *opendir(const char *p) {
  int fd = do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  return fd < 0 ? NULL : mkdirp(fd);
}
EXPORT DIR *fdopendir(int fd) { return mkdirp(fd); }
EXPORT int closedir(DIR *dp) { struct simdir *d = (struct simdir *)dp; int r = (int)fd_call(OP_CLOSE, d->fd, 0, 0); free(d->buf); free(d); return r; }
EXPORT int dirfd(DIR *dp) { return ((struct simdir *)dp)->fd; }
EXPORT struct dirent64 *readdir64(DIR *dp) {
  struct simdir *d = (struct simdir *)dp;
  while (d->off >= d->n) {
    if (d->eof) return NULL;
    free(d->buf); d->buf = NULL; d->n = d->off = 0;
    int64_t r = call(OP_GETDENTS, d->fd, 0, 0, 0, NULL, 0, NULL, 0, NULL, 0, &d->buf, &d->n);
    if (r < 0) { d->n = 0; return NULL; }
    if (d->n == 0) { d->eof = 1; return NULL; }
  }
  // record: u64 ino, u8 type, u8 namelen, name
  unsigned char *p = (unsigned char *)d->buf + d->off;
  memcpy(&d->de.d_ino, p, 8);
  d->de.d_type = p[8];
  memcpy(d->de.d_name, p + 10, p[9]);
  d->de.d_name[p[9]] = 0;
  d->de.d_reclen = sizeof d->de;
  d->off += 10 + p[9];
  return &d->de;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int readdir64_r(DIR *dp, struct dirent64 *e, struct dirent64 **res) {
  int save = errno; errno = 0;
  struct dirent64 *r = readdir64(dp);
  int err = errno; errno = save;
  if (r) { *e = *r; *res = e; return 0; }
  *res = NULL; return err;
}
EXPORT void rewinddir(DIR *dp) { struct simdir *d = (struct simdir *)dp; free(d->buf); d->buf = NULL; d->n = d->off = 0; d->eof = 0; fd_call(OP_LSEEK, d->fd, 0, SEEK_SET); }

// --------------------------------------------------------------------- clock
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  int64_t out[2];
  if (call(OP_CLOCK, c, 0, 0, 0, NULL, 0, NULL, 0, out, sizeof out, NULL, NULL) < 0) return -1;
  ts->tv_sec = out[0]; ts->tv_nsec = out[1];
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *ts, struct timespec *rem) {
  call(OP_SLEEP, ts->tv_sec, ts->tv_nsec, (f & TIMER_ABSTIME) ? 1 : 0, c, NULL, 0, NULL, 0, NULL, 0, NULL, NULL); return 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem); }
EXPORT int usleep(useconds_t u) { struct timespec ts = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&ts, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec ts = {s, 0}; nanosleep(&ts, NULL); return 0; }

// -------------------------------------------------------- randomness and ids
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  unsigned char *p = b;
  for (size_t i = 0; i < n; i += 8) { uint64_t r = rnd(); memcpy(p + i, &r, n - i < 8 ? n - i : 8); }
  return n;
}
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT pid_t getpid(void) { return vpid; }
EXPORT pid_t gettid(void) { return vpid; }
EXPORT pid_t getppid(void) { return 1; }

EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  switch (n) {
  case SYS_getrandom: return getrandom((void *)a, b, (unsigned)c);
  case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
  case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
  case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
  case SYS_copy_file_range: case SYS_openat2: case SYS_pidfd_open: case SYS_clone3: case SYS_faccessat2: errno = ENOSYS; return -1;
  case SYS_getpid: case SYS_gettid: return vpid;
  case SYS_openat: return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
  case SYS_unlinkat: return unlinkat((int)a, (const char *)b, (int)c);
  case SYS_read: return read((int)a, (void *)b, (size_t)c);
  case SYS_write: return write((int)a, (const void *)b, (size_t)c);
  case SYS_close: return close((int)a);
  }
  RET(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------ helper process
EXPORT int pipe2(int fds[2], int flags) {
  int64_t out[2];
  if (call(OP_PIPE, flags, 0, 0, 0, NULL, 0, NULL, 0, out, sizeof out, NULL, NULL) < 0) return -1;
  fds[0] = (int)out[0]; fds[1] = (int)out[1];
  return 0;
}
EXPORT int pipe(int fds[2]) { return pipe2(fds, 0); }
#define MAXFA 64
static struct { const void *fa; int from, to; } fas[MAXFA];
static int nfas;
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa) {
  memset(fa, 0, sizeof *fa);
  int j = 0;
  for (int i = 0; i < nfas; i++) if (fas[i].fa != fa) fas[j++] = fas[i];
  nfas = j;
  return 0;
}
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa) {
  int j = 0;
  for (int i = 0; i < nfas; i++) if (fas[i].fa != fa) fas[j++] = fas[i];
  nfas = j;
  return 0;
}
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int from, int to) {
  if (nfas < MAXFA) { fas[nfas].fa = fa; fas[nfas].from = from; fas[nfas].to = to; nfas++; }
  return 0;
}
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *fa, const char *p) { return 0; }
EXPORT int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *fa, int fd) { return 0; }
static int do_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, char *const argv[]) {
  char buf[16384]; size_t n = 0;
  int64_t out = -1, err = -1;
  for (int i = 0; i < nfas; i++) if (fas[i].fa == fa) { if (fas[i].to == 1) out = fas[i].from; if (fas[i].to == 2) err = fas[i].from; }
  size_t l = strlen(file) + 1;
  if (l < sizeof buf) { memcpy(buf, file, l); n = l; }
  for (int i = 0; argv[i]; i++) { l = strlen(argv[i]) + 1; if (n + l > sizeof buf) break; memcpy(buf + n, argv[i], l); n += l; }
  int save = errno;
  int64_t r = call(OP_SPAWN, out, err, 0, 0, buf, n, NULL, 0, NULL, 0, NULL, NULL);
  if (r < 0) { int e = errno; errno = save; return e; }
  *pid = (pid_t)r;
  return 0;
}
EXPORT int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, file, fa, argv); }
EXPORT int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, file, fa, argv); }
EXPORT int pidfd_spawnp(int *fd, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return ENOSYS; }
EXPORT int pidfd_spawn(int *fd, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return ENOSYS; }
EXPORT pid_t fork(void) { call(OP_NOTE, 1, 0, 0, 0, "fork", 4, NULL, 0, NULL, 0, NULL, NULL); errno = EAGAIN; return -1; }
EXPORT pid_t vfork(void) { errno = EAGAIN; return -1; }
EXPORT int execvp(const char *f, char *const a[]) { errno = ENOENT; return -1; }
EXPORT int execve(const char *f, char *const a[], char *const e[]) { errno = ENOENT; return -1; }
EXPORT int system(const char *c) { errno = EAGAIN; return -1; }
EXPORT pid_t waitpid(pid_t p, int *st, int opt) {
  int64_t out = 0;
  int64_t r = call(OP_WAIT, p, opt, 0, 0, NULL, 0, NULL, 0, &out, sizeof out, NULL, NULL);
  if (r > 0 && st) *st = (int)out;
  return (pid_t)r;
}
EXPORT pid_t wait4(pid_t p, int *st, int opt, struct rusage *ru) { return waitpid(p, st, opt); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  int64_t out = 0;
  int64_t r = call(OP_WAIT, (int64_t)id, 0, 0, 0, NULL, 0, NULL, 0, &out, sizeof out, NULL, NULL);
  if (r < 0) return -1;
  if (si) { memset(si, 0, sizeof *si); si->si_pid = (pid_t)r;
    if (WIFEXITED((int)out)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS((int)out); } else { si->si_code = CLD_KILLED; si->si_status = WTERMSIG((int)out); } }
  return 0;
}
EXPORT int kill(pid_t p, int s) { call(OP_NOTE, 2, p, s, 0, "kill", 4, NULL, 0, NULL, 0, NULL, NULL); return 0; }
EXPORT int poll(struct pollfd *f, nfds_t n, int timeout) {
  int sim = 0;
  for (nfds_t i = 0; i < n; i++) if (f[i].fd >= SIMFD_BASE) sim = 1;
  if (!sim) { for (nfds_t i = 0; i < n; i++) f[i].revents = 0; return 0; }
  int64_t in[16], out[16]; size_t k = n > 16 ? 16 : n;
  for (size_t i = 0; i < k; i++) in[i] = f[i].fd;
  int64_t r = call(OP_POLL, (int64_t)k, timeout, 0, 0, in, k * 8, NULL, 0, out, sizeof out, NULL, NULL);
  if (r < 0) return -1;
  for (size_t i = 0; i < k; i++) f[i].revents = (short)out[i];
  return (int)r;
}
EXPORT int socketpair(int d, int t, int p, int sv[2]) { errno = EACCES; return -1; }
EXPORT int socket(int d, int t, int p) { call(OP_NOTE, 3, 0, 0, 0, "socket", 6, NULL, 0, NULL, 0, NULL, NULL); errno = EACCES; return -1; }
EXPORT int getpwuid_r(uid_t u, void *a, char *b, size_t n, void **res) { *res = NULL; return 0; }
