// Preloaded into the build process: kills it at the N-th call which changes files or starts a process.
//   AK_KILL=N   _exit by SIGKILL just before the N-th call;  AK_COUNT=FILE  number of calls is appended at exit
//   AK_FULL=N   the disk is full from the N-th call on: nothing can be created or written
//   AK_ONCE=1  only the N-th call fails;  AK_NOPROC=N  processes cannot be started from the N-th call on
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int active = -1, count, kill_at, full_at, noproc_at, once;

static int point(void) {
  if (active < 0) {
    const char *k = getenv("AK_KILL");
    active = getpid() == getsid(0);
    kill_at = k ? atoi(k) : 0;
    k = getenv("AK_FULL");
    full_at = k ? atoi(k) : 0;
    k = getenv("AK_NOPROC");
    noproc_at = k ? atoi(k) : 0;
    once = !!getenv("AK_ONCE");
  }
  if (!active || getpid() != getsid(0)) return 0;
  ++count;
  if (kill_at && count == kill_at) {
    kill(getpid(), SIGKILL);
    for ( ; ; ) pause();
  }
  return 1;
}

// Is the call which was counted refused?
static int full(void) {
  if (!point() || !full_at || count < full_at || (once && count > full_at)) return 0;
  errno = ENOSPC;
  return 1;
}

static int regular(int fd) {
  struct stat st;
  return fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

// Data are lost, unless they fit into the buffer of the stream
static int lost(FILE *f, size_t n) {
  if (!full() || !regular(fileno(f)) || __fpending(f) + n < 4000) return 0;
  f->_flags |= 0x20; // ferror()
  return 1;
}

__attribute__((destructor)) static void fini(void) {
  const char *f = getenv("AK_COUNT");
  if (f && getpid() == getsid(0)) {
    int fd = syscall(257 /* openat */, AT_FDCWD, f, O_WRONLY | O_APPEND, 0);
    if (fd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%d\n", count); if (write(fd, b, n)) {} close(fd); }
  }
}

#define NEXT(name) ({ static void *p_; if (!p_) p_ = dlsym(RTLD_NEXT, name); p_; })

int rename(const char *a, const char *b) { point(); return ((int (*)(const char*, const char*)) NEXT("rename"))(a, b); }
int unlink(const char *a) { point(); return ((int (*)(const char*)) NEXT("unlink"))(a); }
int rmdir(const char *a) { point(); return ((int (*)(const char*)) NEXT("rmdir"))(a); }
int mkdir(const char *a, mode_t m) { if (full() && access(a, F_OK)) { errno = ENOSPC; return -1; } return ((int (*)(const char*, mode_t)) NEXT("mkdir"))(a, m); }
int symlink(const char *a, const char *b) { if (full() && access(b, F_OK)) { errno = ENOSPC; return -1; } return ((int (*)(const char*, const char*)) NEXT("symlink"))(a, b); }
int link(const char *a, const char *b) { if (full() && access(b, F_OK)) { errno = ENOSPC; return -1; } return ((int (*)(const char*, const char*)) NEXT("link"))(a, b); }
int truncate(const char *a, off_t n) { point(); return ((int (*)(const char*, off_t)) NEXT("truncate"))(a, n); }
int ftruncate(int fd, off_t n) { point(); return ((int (*)(int, off_t)) NEXT("ftruncate"))(fd, n); }
pid_t fork(void) { if (point() && noproc_at && count >= noproc_at && !(once && count > noproc_at)) { errno = EAGAIN; return -1; } return ((pid_t (*)(void)) NEXT("fork"))(); }
pid_t waitpid(pid_t p, int *st, int fl) { point(); return ((pid_t (*)(pid_t, int*, int)) NEXT("waitpid"))(p, st, fl); }
FILE* fopen(const char *a, const char *m) {
  if (strpbrk(m, "wa+") && full() && access(a, F_OK)) { errno = ENOSPC; return 0; }
  return ((FILE* (*)(const char*, const char*)) NEXT("fopen"))(a, m);
}
FILE* fopen64(const char *a, const char *m) {
  if (strpbrk(m, "wa+") && full() && access(a, F_OK)) { errno = ENOSPC; return 0; }
  return ((FILE* (*)(const char*, const char*)) NEXT("fopen64"))(a, m);
}
int fclose(FILE *f) {
  if (full() && regular(fileno(f)) && __fwriting(f) && (__fpending(f) > 0 || ferror(f))) {
    __fpurge(f);
    ((int (*)(FILE*)) NEXT("fclose"))(f);
    errno = ENOSPC;
    return EOF;
  }
  return ((int (*)(FILE*)) NEXT("fclose"))(f);
}
int fflush(FILE *f) { if (f && fileno(f) > 2 && lost(f, 4000)) return EOF; return ((int (*)(FILE*)) NEXT("fflush"))(f); }
int fsync(int fd) { if (full()) return -1; return ((int (*)(int)) NEXT("fsync"))(fd); }
ssize_t write(int fd, const void *b, size_t n) {
  if (fd > 2 && full() && regular(fd)) return -1;
  return ((ssize_t (*)(int, const void*, size_t)) NEXT("write"))(fd, b, n);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
  if (fileno(f) > 2 && lost(f, s * n)) return 0;
  return ((size_t (*)(const void*, size_t, size_t, FILE*)) NEXT("fwrite"))(p, s, n, f);
}
static void flushed(FILE *f) {
  static int on = -1;
  if (on < 0) on = !!getenv("AK_FLUSH");
  if (on && fileno(f) > 2) ((int (*)(FILE*)) NEXT("fflush"))(f);
}
int fputs(const char *a, FILE *f) {
  if (fileno(f) > 2 && lost(f, strlen(a))) return EOF;
  int rc = ((int (*)(const char*, FILE*)) NEXT("fputs"))(a, f);
  flushed(f);
  return rc;
}
int fputc(int c, FILE *f) {
  if (fileno(f) > 2 && lost(f, 1)) return EOF;
  int rc = ((int (*)(int, FILE*)) NEXT("fputc"))(c, f);
  flushed(f);
  return rc;
}
int fprintf(FILE *f, const char *fmt, ...) {
  va_list v;
  va_start(v, fmt);
  if (fileno(f) > 2 && lost(f, 100)) { va_end(v); return -1; }
  int rc = vfprintf(f, fmt, v);
  va_end(v);
  flushed(f);
  return rc;
}
int __fprintf_chk(FILE *f, int flag, const char *fmt, ...) {
  va_list v;
  va_start(v, fmt);
  if (fileno(f) > 2 && lost(f, 100)) { va_end(v); return -1; }
  int rc = vfprintf(f, fmt, v);
  va_end(v);
  flushed(f);
  return rc;
}
#define OPEN(name) \
  int name(const char *a, int fl, ...) { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); } \
    if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) && full() && (fl & O_CREAT) && access(a, F_OK)) { errno = ENOSPC; return -1; } \
    return ((int (*)(const char*, int, mode_t)) NEXT(#name))(a, fl, m); \
  }
OPEN(open)
OPEN(open64)
