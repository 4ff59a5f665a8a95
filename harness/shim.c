/* Preloaded into a loader process: every file operation on a path below one
   directory asks a controller what to do first.  Replies: g go on, k die
   before it, t do half of a write and die, f fail for lack of space,
   h write half of it and report that. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static int out_fd = -1, in_fd = -1;
static char prefix[PATH_MAX];
static size_t prefix_len;
static unsigned char tracked[4096];

#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static ssize_t raw_write(int fd, const void *buf, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); return real(fd, buf, n); }
static ssize_t raw_read(int fd, void *buf, size_t n) { REAL(ssize_t, "read", int, void *, size_t); return real(fd, buf, n); }

void verif_arm(int out, int in, const char *dir) {
  strncpy(prefix, dir, sizeof prefix - 1);
  prefix_len = strlen(prefix);
  out_fd = out;
  in_fd = in;
}

static int inside_at(int dirfd, const char *path) {
  if (out_fd < 0 || !path) return 0;
  if (path[0] == '/' || dirfd == AT_FDCWD) return strncmp(path, prefix, prefix_len) == 0;
  char link[64], full[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
  ssize_t n = readlink(link, full, sizeof full - 1);
  if (n < 0) return 0;
  full[n] = 0;
  return strncmp(full, prefix, prefix_len) == 0;
}
static int inside(const char *path) { return inside_at(AT_FDCWD, path); }
static int watched(int fd) { return out_fd >= 0 && fd >= 0 && fd < 4096 && tracked[fd]; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static char ask(const char *op) {
  char reply = 'k';
  int saved = errno;
  if (raw_write(out_fd, op, strlen(op)) < 0 || raw_read(in_fd, &reply, 1) != 1 || reply == 'k') die();
  errno = saved;
  return reply;
}
/* operations that need space */
#define NEEDS_SPACE(op) if (ask(op) == 'f') { errno = ENOSPC; return -1; }

static int there(int dirfd, const char *path) {
  REAL(int, "faccessat", int, const char *, int, int);
  int saved = errno, yes = real(dirfd, path, F_OK, AT_SYMLINK_NOFOLLOW) == 0;
  errno = saved;
  return yes;
}
static void track(int fd, int yes) { if (fd >= 0 && fd < 4096) tracked[fd] = yes; }

#define OPEN_BODY(call, dfd) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  int in = inside_at(dfd, path); \
  if (in) { if ((flags & (O_CREAT | O_TMPFILE)) && !there(dfd, path)) { NEEDS_SPACE("create\n") } else if (flags & (O_CREAT | O_TRUNC)) ask("truncate\n"); else ask((flags & O_ACCMODE) == O_RDONLY ? "open\n" : "update\n"); } \
  int fd = call; \
  track(fd, in); \
  return fd;

int open64(const char *path, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPEN_BODY(real(path, flags, mode), AT_FDCWD) }
int open(const char *path, int flags, ...) { REAL(int, "open", const char *, int, ...); OPEN_BODY(real(path, flags, mode), AT_FDCWD) }
int openat64(int dirfd, const char *path, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPEN_BODY(real(dirfd, path, flags, mode), dirfd) }
int openat(int dirfd, const char *path, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPEN_BODY(real(dirfd, path, flags, mode), dirfd) }

int close(int fd) { REAL(int, "close", int); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return real(fd); }

static ssize_t written(int fd, const void *buf, size_t n) {
  char reply = ask("write\n");
  if (reply == 'f') { errno = ENOSPC; return -1; }
  if (reply == 't') { raw_write(fd, buf, n / 2); die(); }
  if (reply == 'h' && n > 1) n = n / 2;
  return raw_write(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { return watched(fd) ? written(fd, buf, n) : raw_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (watched(fd)) NEEDS_SPACE("write\n")
  return real(fd, v, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t at) {
  REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
  if (watched(fd)) NEEDS_SPACE("write\n")
  return real(fd, buf, n, at);
}
ssize_t read(int fd, void *buf, size_t n) { if (watched(fd)) ask("read\n"); return raw_read(fd, buf, n); }
ssize_t sendfile64(int o, int i, off64_t *at, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  if (watched(o)) NEEDS_SPACE("write\n")
  return real(o, i, at, n);
}
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (watched(fd)) ask("truncate\n"); return real(fd, n); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); if (inside(p)) ask("truncate\n"); return real(p, n); }
int fsync(int fd) { REAL(int, "fsync", int); if (watched(fd)) NEEDS_SPACE("sync\n") return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); if (watched(fd)) NEEDS_SPACE("sync\n") return real(fd); }
int flock(int fd, int op) { REAL(int, "flock", int, int); if (watched(fd)) ask("lock\n"); return real(fd, op); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if (inside(b)) NEEDS_SPACE("rename\n") return real(a, b); }
int renameat(int ad, const char *a, int bd, const char *b) {
  REAL(int, "renameat", int, const char *, int, const char *);
  if (inside_at(bd, b)) NEEDS_SPACE("rename\n")
  return real(ad, a, bd, b);
}
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (inside(b)) NEEDS_SPACE("link\n") return real(a, b); }
int linkat(int ad, const char *a, int bd, const char *b, int f) {
  REAL(int, "linkat", int, const char *, int, const char *, int);
  if (inside_at(bd, b)) NEEDS_SPACE("link\n")
  return real(ad, a, bd, b, f);
}
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); if (inside(b)) NEEDS_SPACE("link\n") return real(a, b); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (inside(p) && !there(AT_FDCWD, p)) NEEDS_SPACE("mkdir\n") return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (inside_at(d, p) && !there(d, p)) NEEDS_SPACE("mkdir\n") return real(d, p, m); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (inside(p)) ask("unlink\n"); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (inside_at(d, p)) ask("unlink\n"); return real(d, p, f); }
int stat64(const char *p, struct stat64 *s) { REAL(int, "stat64", const char *, struct stat64 *); if (inside(p)) ask("stat\n"); return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, "lstat64", const char *, struct stat64 *); if (inside(p)) ask("stat\n"); return real(p, s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
  REAL(int, "fstatat64", int, const char *, struct stat64 *, int);
  if (p[0] && inside_at(d, p)) ask("stat\n");
  return real(d, p, s, f);
}
int access(const char *p, int m) { REAL(int, "access", const char *, int); if (inside(p)) ask("stat\n"); return real(p, m); }
