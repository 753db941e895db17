/* Counts the file-system effects of this process below a path prefix and
 * injects one fault: the process dies at effect N, or effect N fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <pthread.h>

#define MAXFD 65536
#define MAXEV 4096
static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static long armed_at = -1; /* event number, -1: count only */
static int mode = 0;       /* 1: die before, 2: die after a partial effect,
                              3: die after, 4: fail once, 5: fail from now on */
static int err_no = EIO;
static volatile long events = 0;
static long log_n = 0;
static char kinds[MAXEV];
static unsigned char tracked[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) static typeof(&name) real = 0; \
  if (!real) real = (typeof(&name))dlsym(RTLD_NEXT, #name)

void shim_arm(const char *p, int m, long at, int e) {
  strncpy(prefix, p, sizeof prefix - 1);
  prefix_len = strlen(prefix);
  mode = m; armed_at = at; err_no = e; events = 0; log_n = 0;
  memset(tracked, 0, sizeof tracked);
}
void shim_off(void) { prefix_len = 0; }
long shim_events(void) { return events; }
int shim_kind(long i) { return i < MAXEV ? kinds[i] : 0; }

static int under(int dirfd, const char *p) {
  if (!prefix_len || !p) return 0;
  if (p[0] != '/') {
    char cwd[PATH_MAX * 2];
    if (dirfd != AT_FDCWD) return 0;
    if (!getcwd(cwd, PATH_MAX)) return 0;
    strcat(cwd, "/"); strncat(cwd, p, PATH_MAX - 1);
    return strncmp(cwd, prefix, prefix_len) == 0;
  }
  return strncmp(p, prefix, prefix_len) == 0;
}

static void die(void) { syscall(SYS_exit_group, 137); }

/* Returns 0: go on; 1: fail with err_no; 2: partial effect, then die;
 * 3: full effect, then die. */
static int hit(char kind) {
  pthread_mutex_lock(&mu);
  long n = events++;
  if (n < MAXEV) kinds[n] = kind;
  int at = armed_at >= 0 && n == armed_at;
  int after = armed_at >= 0 && n > armed_at;
  pthread_mutex_unlock(&mu);
  if (at) {
    if (mode == 1) die();
    if (mode == 2) return 2;
    if (mode == 3) return 3;
    if (mode == 4 || mode == 5) { errno = err_no; return 1; }
  }
  if (after && mode == 5 && kind != 'c') { errno = err_no; return 1; }
  if (after && (mode == 2 || mode == 3)) die();
  return 0;
}

static int do_open(int dirfd, const char *p, int flags, mode_t md) {
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int t = wr && under(dirfd, p);
  int h = 0;
  if (t) {
    h = hit('o');
    if (h == 1) return -1;
    if (h == 2) die();
  }
  int fd = syscall(SYS_openat, dirfd, p, flags, md);
  if (h == 3) die();
  if (fd >= 0 && fd < MAXFD) tracked[fd] = t ? 1 : 0;
  return fd;
}
#define VA_MODE mode_t md = 0; if (flags & (O_CREAT | O_TMPFILE)) { \
  va_list a; va_start(a, flags); md = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { VA_MODE return do_open(AT_FDCWD, p, flags, md); }
int open64(const char *p, int flags, ...) { VA_MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, md); }
int openat(int d, const char *p, int flags, ...) { VA_MODE return do_open(d, p, flags, md); }
int openat64(int d, const char *p, int flags, ...) { VA_MODE return do_open(d, p, flags | O_LARGEFILE, md); }
int creat(const char *p, mode_t md) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, md); }

static int fdt(int fd) { return prefix_len && fd >= 0 && fd < MAXFD && tracked[fd]; }

static int fmode(const char *m) {
  int f = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
  if (m[0] == 'w') f |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') f |= O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  if (strchr(m, 'e')) f |= O_CLOEXEC;
  return f;
}
/* stdio streams below the prefix: unbuffered, and backed by the same counted
 * file descriptors (glibc's own stdio does not call the interposed write). */
static ssize_t ck_write(void *c, const char *b, size_t n) {
  ssize_t r = write((int)(long)c, b, n);
  return r < 0 ? 0 : r;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static int ck_seek(void *c, off64_t *o, int w) {
  off64_t r = lseek64((int)(long)c, *o, w);
  if (r < 0) return -1;
  *o = r; return 0;
}
static int ck_close(void *c) { return close((int)(long)c); }
static FILE *do_fopen(const char *p, const char *m, FILE *(*real)(const char *, const char *)) {
  int f = fmode(m);
  if ((f & O_ACCMODE) == O_RDONLY || !under(AT_FDCWD, p)) return real(p, m);
  int fd = do_open(AT_FDCWD, p, f, 0666);
  if (fd < 0) return 0;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie((void *)(long)fd, m, io);
}
FILE *fopen(const char *p, const char *m) { REAL(fopen); return do_fopen(p, m, real); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return do_fopen(p, m, real); }

ssize_t write(int fd, const void *b, size_t n) {
  int h = fdt(fd) ? hit('w') : 0;
  if (h == 1) return -1;
  if (h == 2) { syscall(SYS_write, fd, b, n / 2); die(); }
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (h == 3) die();
  return r;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off64_t o) {
  int h = fdt(fd) ? hit('w') : 0;
  if (h == 1) return -1;
  if (h == 2) { syscall(SYS_pwrite64, fd, b, n / 2, o); die(); }
  ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
  if (h == 3) die();
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  int h = fdt(fd) ? hit('w') : 0;
  if (h == 1) return -1;
  if (h == 2) { syscall(SYS_writev, fd, v, c > 1 ? 1 : 0); die(); }
  ssize_t r = syscall(SYS_writev, fd, v, c);
  if (h == 3) die();
  return r;
}
int close(int fd) {
  int h = 0;
  if (fdt(fd)) {
    h = hit('c');
    tracked[fd] = 0;
    if (h == 1) { syscall(SYS_close, fd); errno = err_no; return -1; }
    if (h == 2) die();
  }
  int r = syscall(SYS_close, fd);
  if (h == 3) die();
  return r;
}
int fsync(int fd) { REAL(fsync); int h = fdt(fd) ? hit('s') : 0; if (h == 1) return -1; if (h) die(); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); int h = fdt(fd) ? hit('s') : 0; if (h == 1) return -1; if (h) die(); return real(fd); }
int ftruncate(int fd, off_t n) {
  int h = fdt(fd) ? hit('t') : 0;
  if (h == 1) return -1;
  if (h == 2) die();
  int r = syscall(SYS_ftruncate, fd, n);
  if (h == 3) die();
  return r;
}
#define PATHOP(decl, cond, kind, call) decl { \
  int h = (cond) ? hit(kind) : 0; \
  if (h == 1) return -1; \
  if (h == 2) die(); \
  int r = call; \
  if (h == 3) die(); \
  return r; }
PATHOP(int rename(const char *a, const char *b), under(AT_FDCWD, a) || under(AT_FDCWD, b), 'r', syscall(SYS_rename, a, b))
PATHOP(int renameat(int d, const char *a, int e, const char *b), under(d, a) || under(e, b), 'r', syscall(SYS_renameat, d, a, e, b))
PATHOP(int renameat2(int d, const char *a, int e, const char *b, unsigned f), under(d, a) || under(e, b), 'r', syscall(SYS_renameat2, d, a, e, b, f))
PATHOP(int link(const char *a, const char *b), under(AT_FDCWD, a) || under(AT_FDCWD, b), 'l', syscall(SYS_link, a, b))
PATHOP(int unlink(const char *a), under(AT_FDCWD, a), 'u', syscall(SYS_unlink, a))
PATHOP(int unlinkat(int d, const char *a, int f), under(d, a), 'u', syscall(SYS_unlinkat, d, a, f))
PATHOP(int remove(const char *a), under(AT_FDCWD, a), 'u', syscall(SYS_unlink, a))
PATHOP(int rmdir(const char *a), under(AT_FDCWD, a), 'u', syscall(SYS_rmdir, a))
PATHOP(int truncate(const char *a, off_t n), under(AT_FDCWD, a), 't', syscall(SYS_truncate, a, n))
PATHOP(int mkdir(const char *a, mode_t m), under(AT_FDCWD, a), 'm', syscall(SYS_mkdir, a, m))
PATHOP(int mkdirat(int d, const char *a, mode_t m), under(d, a), 'm', syscall(SYS_mkdirat, d, a, m))
