/* Simulated disk: the seam between the code under test and the file system, as an LD_PRELOAD shim.
 *
 * While armed, every file operation below one scratch directory is numbered. Modifying operations are recorded (sim/disk.py
 * rebuilds the directory as a crash or power cut at any of them would leave it), and a plan makes chosen operations fail,
 * transfer less than asked for, or turns the disk full or read-only from some operation on. Nothing else is touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_SYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_LINK, OP_CLOSE, OP_READ, OP_OPENR };
enum { F_ERROR = 1, F_SHORT, F_TORN, F_FOREVER, F_BUDGET };

typedef struct { uint32_t op, index, fault, err; uint64_t file; int64_t off, len; uint32_t p1, p2, flags, pad; } rec;

static volatile int armed = 0;
static char prefix[PATH_MAX];
static size_t plen;
static unsigned char *logbuf;
static size_t loglen, logcap;
static uint32_t counter;
static uint64_t nfiles;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int inside = 0;

#define MAXF 4096
static struct { ino_t ino; dev_t dev; uint64_t id; } files[MAXF];
static int nf;

#define MAXP 64
static struct { uint32_t index, kind, err; int64_t arg; } plan[MAXP];
static int np_;
static int forever_err;
static int64_t budget = -1;

#define REAL(name) ({ static __typeof__(&name) r_; if (!r_) r_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); r_; })

static void put(const void *p, size_t n) {
  if (loglen + n > logcap) { logcap = (loglen + n) * 2 + 65536; logbuf = realloc(logbuf, logcap); }
  memcpy(logbuf + loglen, p, n);
  loglen += n;
}

static void record(uint32_t op, uint32_t index, uint32_t fault, int err, uint64_t file, int64_t off, int64_t len, const char *p1, const char *p2, uint32_t flags, const void *data) {
  rec r = {op, index, fault, (uint32_t)err, file, off, len, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0, flags, 0};
  put(&r, sizeof r);
  if (p1) put(p1, r.p1);
  if (p2) put(p2, r.p2);
  if (op == OP_WRITE && len > 0) put(data, len);
}

/* ---- control, called from sim/disk.py ---- */
void disk_arm(const char *dir) {
  pthread_mutex_lock(&mu);
  strncpy(prefix, dir, sizeof prefix - 2);
  plen = strlen(prefix);
  loglen = 0; counter = 0; nf = 0; nfiles = 0; forever_err = 0; budget = -1;
  armed = 1;
  pthread_mutex_unlock(&mu);
}
void disk_disarm(void) { armed = 0; }
void disk_clear_plan(void) { np_ = 0; }
int disk_add_fault(uint32_t index, uint32_t kind, uint32_t err, int64_t arg) {
  if (np_ >= MAXP) return -1;
  plan[np_].index = index; plan[np_].kind = kind; plan[np_].err = err; plan[np_].arg = arg;
  return np_++;
}
const void *disk_log(size_t *n) { *n = loglen; return logbuf; }
uint32_t disk_ops(void) { return counter; }

/* ---- paths ---- */
/* absolute path of (dirfd, path) with the directory part resolved; 1 when below the scratch directory */
static int locate(int dirfd, const char *path, char *out) {
  char joined[PATH_MAX * 2], dir[PATH_MAX * 2], real[PATH_MAX];
  if (!path || !*path) return 0;
  if (path[0] == '/') snprintf(joined, sizeof joined, "%s", path);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
      char lnk[64];
      snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(lnk, base, sizeof base - 1);
      if (n < 0) return 0;
      base[n] = 0;
    }
    snprintf(joined, sizeof joined, "%s/%s", base, path);
  }
  size_t n = strlen(joined);
  while (n > 1 && joined[n - 1] == '/') joined[--n] = 0;
  char *slash = strrchr(joined, '/');
  snprintf(dir, sizeof dir, "%.*s", (int)(slash == joined ? 1 : slash - joined), joined);
  if (!realpath(dir, real)) return 0;
  if (snprintf(out, PATH_MAX, "%s/%s", strcmp(real, "/") ? real : "", slash + 1) >= PATH_MAX) return 0;
  return strncmp(out, prefix, plen) == 0 && (out[plen] == '/' || out[plen] == 0);
}

static int inscratch(int dirfd, const char *path, char *out) {
  if (!armed || inside) return 0;
  inside = 1;
  int e = errno, r = locate(dirfd, path, out);
  errno = e;
  inside = 0;
  return r;
}

static uint64_t fileid(int fd, int fresh) {
  struct stat st;
  if (fstat(fd, &st) != 0) return 0;
  for (int i = nf - 1; i >= 0; i--)
    if (files[i].ino == st.st_ino && files[i].dev == st.st_dev) { if (fresh == 1) files[i].id = ++nfiles; return files[i].id; }
  if (fresh < 0 || nf >= MAXF) return 0;
  files[nf].ino = st.st_ino; files[nf].dev = st.st_dev; files[nf].id = ++nfiles;
  return files[nf++].id;
}

static uint64_t tracked(int fd) {
  if (!armed || inside || fd < 0) return 0;
  int e = errno;
  uint64_t r = fileid(fd, -1);
  errno = e;
  return r;
}

/* ---- faults ---- */
/* index of this operation; kind/err/arg of the fault for it */
static uint32_t next(uint32_t op, int64_t want, uint32_t *kind, int *err, int64_t *arg) {
  uint32_t i = counter++;
  *kind = 0; *err = 0; *arg = 0;
  int changes = op != OP_READ && op != OP_OPENR && op != OP_CLOSE;
  for (int k = 0; k < np_; k++) {
    if (plan[k].index != i) continue;
    if (plan[k].kind == F_FOREVER) forever_err = plan[k].err;
    else if (plan[k].kind == F_BUDGET) budget = plan[k].arg;
    else { *kind = plan[k].kind; *err = plan[k].err; *arg = plan[k].arg; }
  }
  if (forever_err && changes && !(forever_err == ENOSPC && (op == OP_UNLINK || op == OP_RMDIR || op == OP_RENAME || op == OP_SYNC))) { *kind = F_ERROR; *err = forever_err; }
  if (budget >= 0 && op == OP_WRITE && want > 0) {
    if (want > budget) { *kind = budget ? F_BUDGET : F_ERROR; *err = ENOSPC; *arg = budget; budget = 0; }
    else budget -= want;
  }
  return i;
}

#define ENTER pthread_mutex_lock(&mu); inside = 1
#define LEAVE inside = 0; pthread_mutex_unlock(&mu)

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char full[PATH_MAX];
  if (!inscratch(dirfd, path, full)) return REAL(openat64)(dirfd, path, flags, mode);
  ENTER;
  uint32_t kind; int err; int64_t arg;
  struct stat st;
  int existed = stat(full, &st) == 0;
  int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT));
  int isdir = existed && S_ISDIR(st.st_mode);
  int fd = -1;
  if (isdir) { fd = REAL(openat64)(dirfd, path, flags, mode); int e = errno; LEAVE; errno = e; return fd; }
  uint32_t changes = (flags & O_CREAT && !existed) || (flags & O_TRUNC && existed && (flags & O_ACCMODE) != O_RDONLY);
  uint32_t i = next(changes ? OP_OPEN : OP_OPENR, 0, &kind, &err, &arg);
  if (kind == F_ERROR) {
    record(changes ? OP_OPEN : OP_OPENR, i, kind, err, 0, 0, 0, full, NULL, 0, NULL);
    LEAVE; errno = err; return -1;
  }
  fd = REAL(openat64)(dirfd, path, flags, mode);
  int e = errno;
  if (fd >= 0) {
    char real[PATH_MAX], lnk[64];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(lnk, real, sizeof real - 1);
    if (n > 0) real[n] = 0; else snprintf(real, sizeof real, "%s", full);
    uint64_t id = fileid(fd, existed ? 0 : 1);
    record(changes ? OP_OPEN : OP_OPENR, i, 0, 0, id, 0, 0, real, NULL, (!existed ? 1 : 0) | ((flags & O_TRUNC) && existed ? 2 : 0) | (writes ? 4 : 0), NULL);
  } else
    record(changes ? OP_OPEN : OP_OPENR, i, 0, e, 0, 0, 0, full, NULL, 0, NULL);
  LEAVE;
  errno = e;
  return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __openat_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*real)(const char *, const char *)) {
  char full[PATH_MAX];
  if (!inscratch(AT_FDCWD, path, full)) return real(path, mode);
  int flags = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
  int fd = do_open(AT_FDCWD, path, flags, 0666);
  return fd < 0 ? NULL : fdopen(fd, mode);
}
FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode, REAL(fopen)); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode, REAL(fopen64)); }

/* ---- write ---- */
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off, uint64_t id) {
  ENTER;
  uint32_t kind; int err; int64_t arg;
  uint32_t i = next(OP_WRITE, n, &kind, &err, &arg);
  int64_t at = off;
  if (off < 0) at = (REAL(fcntl)(fd, F_GETFL) & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
  size_t m = n;
  if (kind == F_ERROR) m = 0;
  else if (kind == F_BUDGET) m = arg; /* what still fits; the next write fails */
  else if ((kind == F_SHORT || kind == F_TORN) && n > 0) {
    m = (size_t)(n * (arg % 1000) / 1000);
    if (m >= n) m = n - 1;
    if (kind == F_SHORT && m == 0) m = 1;
  }
  ssize_t r = 0;
  if (m) r = off < 0 ? REAL(write)(fd, buf, m) : REAL(pwrite64)(fd, buf, m, off);
  int e = errno;
  record(OP_WRITE, i, kind, kind == F_SHORT || kind == F_BUDGET ? 0 : err, id, at, r > 0 ? r : 0, NULL, NULL, (uint32_t)n, buf);
  if (kind == F_ERROR || kind == F_TORN) {
    /* a torn write has put some bytes on the disk before it failed */
    if (kind == F_TORN && off < 0 && m) lseek(fd, at, SEEK_SET);
    LEAVE; errno = err; return -1;
  }
  LEAVE;
  errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { uint64_t id = tracked(fd); return id ? do_write(fd, b, n, -1, id) : REAL(write)(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { uint64_t id = tracked(fd); return id ? do_write(fd, b, n, o, id) : REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { uint64_t id = tracked(fd); return id ? do_write(fd, b, n, o, id) : REAL(pwrite64)(fd, b, n, o); }
static ssize_t do_writev(int fd, const struct iovec *v, int c, int64_t off, uint64_t id) {
  size_t n = 0, k = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  char *b = malloc(n + 1);
  for (int i = 0; i < c; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
  ssize_t r = do_write(fd, b, n, off, id);
  int e = errno;
  free(b);
  errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) { uint64_t id = tracked(fd); return id ? do_writev(fd, v, c, -1, id) : REAL(writev)(fd, v, c); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { uint64_t id = tracked(fd); return id ? do_writev(fd, v, c, o, id) : REAL(pwritev)(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { uint64_t id = tracked(fd); return id ? do_writev(fd, v, c, o, id) : REAL(pwritev64)(fd, v, c, o); }

/* C streams on tracked files are unbuffered here */
size_t fwrite(const void *p, size_t size, size_t n, FILE *f) {
  uint64_t id = armed && !inside ? tracked(fileno(f)) : 0;
  if (!id || !size || !n) return REAL(fwrite)(p, size, n, f);
  fflush(f);
  size_t done = 0, all = size * n;
  while (done < all) {
    ssize_t r = do_write(fileno(f), (const char *)p + done, all - done, -1, id);
    if (r < 0) { if (errno == EINTR) continue; break; }
    done += r;
  }
  return done / size;
}

/* ---- read ---- */
static int read_fault(int fd, uint64_t id, size_t *n) {
  uint32_t kind; int err; int64_t arg;
  pthread_mutex_lock(&mu);
  uint32_t i = next(OP_READ, *n, &kind, &err, &arg);
  record(OP_READ, i, kind, kind == F_ERROR ? err : 0, id, 0, *n, NULL, NULL, 0, NULL);
  pthread_mutex_unlock(&mu);
  if (kind == F_ERROR) { errno = err; return -1; }
  if (kind == F_SHORT && *n > 1) { *n = *n * (arg % 1000) / 1000; if (*n == 0) *n = 1; }
  return 0;
}
#define RD(call) uint64_t id = tracked(fd); if (id && read_fault(fd, id, &n)) return -1; return call
ssize_t read(int fd, void *b, size_t n) { RD(REAL(read)(fd, b, n)); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { RD(REAL(pread)(fd, b, n, o)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { RD(REAL(pread64)(fd, b, n, o)); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; RD(REAL(read)(fd, b, n)); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void)l; RD(REAL(pread)(fd, b, n, o)); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t l) { (void)l; RD(REAL(pread64)(fd, b, n, o)); }
size_t fread(void *p, size_t size, size_t n, FILE *f) {
  uint64_t id = armed && !inside ? tracked(fileno(f)) : 0;
  if (id && size && n) {
    size_t m = size * n;
    uint32_t kind; int err; int64_t arg;
    pthread_mutex_lock(&mu);
    uint32_t i = next(OP_READ, m, &kind, &err, &arg);
    record(OP_READ, i, kind == F_ERROR ? kind : 0, kind == F_ERROR ? err : 0, id, 0, m, NULL, NULL, 0, NULL);
    pthread_mutex_unlock(&mu);
    if (kind == F_ERROR) { f->_flags |= 0x20; errno = err; return 0; } /* the stream's error flag */
  }
  return REAL(fread)(p, size, n, f);
}

/* ---- size, sync, close ---- */
static int do_trunc(int fd, int64_t len) {
  uint64_t id = tracked(fd);
  if (!id) return REAL(ftruncate64)(fd, len);
  ENTER;
  uint32_t kind; int err; int64_t arg;
  uint32_t i = next(OP_TRUNC, 0, &kind, &err, &arg);
  int r = kind == F_ERROR ? (errno = err, -1) : REAL(ftruncate64)(fd, len), e = errno;
  record(OP_TRUNC, i, kind, r < 0 ? e : 0, id, 0, len, NULL, NULL, 0, NULL);
  LEAVE;
  errno = e;
  return r;
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }

static int do_sync(int fd, int (*real)(int)) {
  if (!armed || inside) return real(fd);
  uint64_t id = tracked(fd);
  char p[PATH_MAX] = "", lnk[64];
  if (!id) { /* a directory? */
    struct stat st;
    if (fstat(fd, &st) || !S_ISDIR(st.st_mode)) return real(fd);
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(lnk, p, sizeof p - 1);
    if (n < 0) return real(fd);
    p[n] = 0;
    if (strncmp(p, prefix, plen)) return real(fd);
  }
  ENTER;
  uint32_t kind; int err; int64_t arg;
  uint32_t i = next(OP_SYNC, 0, &kind, &err, &arg);
  int r = kind == F_ERROR ? (errno = err, -1) : 0, e = errno; /* the simulated disk decides what a power cut leaves */
  record(OP_SYNC, i, kind, r < 0 ? e : 0, id, 0, 0, NULL, NULL, 0, NULL);
  LEAVE;
  errno = e;
  return r;
}
int fsync(int fd) { return do_sync(fd, REAL(fsync)); }
int fdatasync(int fd) { return do_sync(fd, REAL(fdatasync)); }

int close(int fd) {
  uint64_t id = tracked(fd);
  if (!id || (REAL(fcntl)(fd, F_GETFL) & O_ACCMODE) == O_RDONLY) return REAL(close)(fd);
  ENTER;
  uint32_t kind; int err; int64_t arg;
  uint32_t i = next(OP_CLOSE, 0, &kind, &err, &arg);
  int r = REAL(close)(fd), e = errno;
  if (kind == F_ERROR) { r = -1; e = err; }
  record(OP_CLOSE, i, kind, r < 0 ? e : 0, id, 0, 0, NULL, NULL, 0, NULL);
  LEAVE;
  errno = e;
  return r;
}

/* ---- names ---- */
static int named(uint32_t op, int d1, const char *p1, int d2, const char *p2, int (*call)(void *), void *ctx) {
  char f1[PATH_MAX], f2[PATH_MAX];
  if (!inscratch(d1, p1, f1) || (p2 && !inscratch(d2, p2, f2))) return call(ctx);
  ENTER;
  uint32_t kind; int err; int64_t arg;
  uint32_t i = next(op, 0, &kind, &err, &arg);
  int r = kind == F_ERROR ? (errno = err, -1) : call(ctx), e = errno;
  record(op, i, kind, r < 0 ? e : 0, 0, 0, 0, f1, p2 ? f2 : NULL, 0, NULL);
  LEAVE;
  errno = e;
  return r;
}
typedef struct { int a, c; const char *b, *d; unsigned f; mode_t m; } nargs;
static int c_rename(void *x) { nargs *n = x; return REAL(renameat)(n->a, n->b, n->c, n->d); }
static int c_rename2(void *x) { nargs *n = x; return REAL(renameat2)(n->a, n->b, n->c, n->d, n->f); }
static int c_unlink(void *x) { nargs *n = x; return REAL(unlinkat)(n->a, n->b, n->f); }
static int c_mkdir(void *x) { nargs *n = x; return REAL(mkdirat)(n->a, n->b, n->m); }
static int c_link(void *x) { nargs *n = x; return REAL(linkat)(n->a, n->b, n->c, n->d, n->f); }
int renameat(int a, const char *b, int c, const char *d) { nargs n = {a, c, b, d, 0, 0}; return named(OP_RENAME, a, b, c, d, c_rename, &n); }
int rename(const char *b, const char *d) { return renameat(AT_FDCWD, b, AT_FDCWD, d); }
int renameat2(int a, const char *b, int c, const char *d, unsigned f) { nargs n = {a, c, b, d, f, 0}; return named(OP_RENAME, a, b, c, d, c_rename2, &n); }
int unlinkat(int a, const char *b, int f) { nargs n = {a, 0, b, NULL, f, 0}; return named(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, a, b, 0, NULL, c_unlink, &n); }
int unlink(const char *b) { return unlinkat(AT_FDCWD, b, 0); }
int rmdir(const char *b) { return unlinkat(AT_FDCWD, b, AT_REMOVEDIR); }
int remove(const char *b) { struct stat st; return unlinkat(AT_FDCWD, b, lstat(b, &st) == 0 && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0); }
int mkdirat(int a, const char *b, mode_t m) { nargs n = {a, 0, b, NULL, 0, m}; return named(OP_MKDIR, a, b, 0, NULL, c_mkdir, &n); }
int mkdir(const char *b, mode_t m) { return mkdirat(AT_FDCWD, b, m); }
int linkat(int a, const char *b, int c, const char *d, int f) { nargs n = {a, c, b, d, f, 0}; return named(OP_LINK, a, b, c, d, c_link, &n); }
int link(const char *b, const char *d) { return linkat(AT_FDCWD, b, AT_FDCWD, d, 0); }

/* copies inside the kernel are done by plain reads and writes instead */
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { if (tracked(out)) { errno = ENOTSOCK; return -1; } return REAL(sendfile64)(out, in, o, n); }
ssize_t sendfile(int out, int in, off_t *o, size_t n) { if (tracked(out)) { errno = ENOTSOCK; return -1; } return REAL(sendfile)(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned f) { if (tracked(out)) { errno = EXDEV; return -1; } return REAL(copy_file_range)(in, a, out, b, n, f); }
