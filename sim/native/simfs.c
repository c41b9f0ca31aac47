// Simulated disk: LD_PRELOAD seam under Python, libtorch and libc I/O.
// Only paths below the registered roots are simulated; everything else passes
// through.  Every operation on the simulated disk gets an index; a fault table
// maps an index to a fault.  State lives in shared memory so that a parent sees
// what a killed child did.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN_W = 1, OP_WRITE, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR,
       OP_TRUNC, OP_LINK, OP_COPY, OP_OPEN_R, OP_READ, OP_FSYNC, OP_CLOSE_W };
enum { F_NONE = 0, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN_CRASH, F_EIO, F_ENOSPC,
       F_SHORT, F_EXDEV, F_FULL_FROM, F_EINTR, F_EOF, F_EMFILE };

#define MAXF 64
#define MAXLOG 65536
typedef struct {
  volatile int32_t active;
  volatile int32_t count_reads;
  volatile int32_t nops;
  volatile int32_t nfaults;
  volatile int32_t fired[16];   // per fault kind
  volatile int32_t full;        // disk full: every write fails
  volatile int64_t bytes;
  volatile int32_t logn;
  volatile uint8_t ops[MAXLOG];
  volatile int32_t f_idx[MAXF];
  volatile int32_t f_kind[MAXF];
  volatile int32_t f_arg[MAXF];
  volatile int32_t sep_tmp;     // root 1 is on another filesystem than root 0
  volatile int32_t user[256];   // scratch words for the harness
  volatile int32_t count_close; // closing a written file is an operation that can fail
} shm_t;

static shm_t *S;
static char roots[4][512];
static int nroots;
static signed char fdroot[4096];  // 0 = not simulated, else root+1
static unsigned char fdwr[4096];

#define REAL(name) ((__typeof__(&name))real_(#name))
static void *real_(const char *n) {
  void *p = dlsym(RTLD_NEXT, n);
  if (!p) abort();
  return p;
}

__attribute__((constructor)) static void init(void) {
  S = mmap(0, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
shm_t *simfs_state(void) { return S; }
void simfs_roots(const char *a, const char *b) {
  nroots = 0;
  if (a) strncpy(roots[nroots++], a, 511);
  if (b) strncpy(roots[nroots++], b, 511);
}
// A private state block for this process and its children (parallel workers).
void simfs_private(void) {
  S = mmap(0, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static int which(const char *p) {
  if (!S || !S->active || !p) return 0;
  char buf[4096];
  if (p[0] != '/') {
    size_t n;
    if (!getcwd(buf, sizeof buf)) return 0;
    n = strlen(buf);
    snprintf(buf + n, sizeof buf - n, "/%s", p);
    p = buf;
  }
  for (int i = 0; i < nroots; i++) {
    size_t n = strlen(roots[i]);
    if (n && !strncmp(p, roots[i], n) && (p[n] == '/' || p[n] == 0)) return i + 1;
  }
  return 0;
}
static int whichat(int dirfd, const char *p) {
  if (!S || !S->active || !p) return 0;
  if (p[0] == '/' || dirfd == AT_FDCWD) return which(p);
  char l[64], b[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  return which(b);
}

// Starts an operation: returns the fault kind planned for it.
static int op(int kind, int *arg) {
  int i = S->nops++;
  if (S->logn < MAXLOG) S->ops[S->logn++] = kind;
  *arg = 0;
  for (int k = 0; k < S->nfaults; k++)
    if (S->f_idx[k] == i) {
      int f = S->f_kind[k];
      *arg = S->f_arg[k];
      if (f == F_FULL_FROM) { S->full = *arg ? *arg : 1 << 30; f = 0; }
      // only error codes this kind of call can really return
      else if (f == F_EINTR && kind != OP_WRITE && kind != OP_READ) return 0;
      else if (f == F_EMFILE && kind != OP_OPEN_W && kind != OP_OPEN_R) return 0;
      else if (f == F_ENOSPC && (kind == OP_UNLINK || kind == OP_RMDIR || kind == OP_OPEN_R || kind == OP_READ)) return 0;
      else if (f == F_CRASH_BEFORE) { S->fired[f]++; _exit(137); }
      else return f;
    }
  return 0;
}
static void fire(int f) { S->fired[f]++; }
static void after(int f) { if (f == F_CRASH_AFTER) { fire(f); _exit(137); } }
static int fail(int f) {  // generic error faults; returns 1 and sets errno
  int e = f == F_EIO ? EIO : f == F_ENOSPC ? ENOSPC : f == F_EINTR ? EINTR
        : f == F_EMFILE ? EMFILE : 0;
  if (e) { fire(f); errno = e; }
  return e != 0;
}
static int full(void) {
  if (S->full > 0) { S->full--; fire(F_FULL_FROM); errno = ENOSPC; return 1; }
  return 0;
}

static void track(int fd, int root, int wr) {
  if (fd >= 0 && fd < 4096) { fdroot[fd] = root; fdwr[fd] = wr; }
}
static int fdr(int fd) {
  return S && S->active && fd >= 0 && fd < 4096 ? fdroot[fd] : 0;
}

static int open_common(int (*f)(const char *, int, ...), const char *p, int flags, mode_t m) {
  int r = which(p);
  if (!r) { int fd = f(p, flags, m); if (fd >= 0 && fd < 4096) fdroot[fd] = 0; return fd; }
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (flags & O_DIRECTORY) wr = 0;
  int a, k = 0;
  if (wr) { k = op(OP_OPEN_W, &a); if (fail(k)) return -1; }
  else if (S->count_reads && !(flags & O_DIRECTORY)) { k = op(OP_OPEN_R, &a); if (fail(k)) return -1; }
  int fd = f(p, flags, m);
  track(fd, r, wr);
  after(k);
  return fd;
}
int open(const char *p, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v);
  return open_common((int (*)(const char *, int, ...))REAL(open), p, flags, m);
}
int open64(const char *p, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v);
  return open_common((int (*)(const char *, int, ...))REAL(open64), p, flags, m);
}
static int openat_common(int (*f)(int, const char *, int, ...), int d, const char *p, int flags, mode_t m) {
  int r = whichat(d, p);
  if (!r) { int fd = f(d, p, flags, m); if (fd >= 0 && fd < 4096) fdroot[fd] = 0; return fd; }
  int wr = ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) && !(flags & O_DIRECTORY);
  int a, k = 0;
  if (wr) { k = op(OP_OPEN_W, &a); if (fail(k)) return -1; }
  else if (S->count_reads && !(flags & O_DIRECTORY)) { k = op(OP_OPEN_R, &a); if (fail(k)) return -1; }
  int fd = f(d, p, flags, m);
  track(fd, r, wr);
  after(k);
  return fd;
}
int openat(int d, const char *p, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v);
  return openat_common((int (*)(int, const char *, int, ...))REAL(openat), d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v);
  return openat_common((int (*)(int, const char *, int, ...))REAL(openat64), d, p, flags, m);
}
static FILE *fopen_common(FILE *(*f)(const char *, const char *), const char *p, const char *mode) {
  int r = which(p);
  int wr = mode[0] != 'r' || strchr(mode, '+');
  int a, k = 0;
  if (r && wr) { k = op(OP_OPEN_W, &a); if (fail(k)) return NULL; }
  else if (r && S->count_reads) { k = op(OP_OPEN_R, &a); if (fail(k)) return NULL; }
  FILE *h = f(p, mode);
  if (h) track(fileno(h), r, wr);
  if (r) after(k);
  return h;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(REAL(fopen), p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(REAL(fopen64), p, m); }
int close(int fd) {
  int k = 0, a;
  if (fdr(fd) && fdwr[fd] && S->count_close) k = op(OP_CLOSE_W, &a);
  if (fd >= 0 && fd < 4096) fdroot[fd] = 0;
  int r = REAL(close)(fd);
  if ((k == F_EIO || k == F_ENOSPC) && fail(k)) return -1;  // as a network file system does
  after(k);
  return r;
}
static void dupped(int r, int a) {
  if (r >= 0 && r < 4096 && a >= 0 && a < 4096) { fdroot[r] = fdroot[a]; fdwr[r] = fdwr[a]; }
}
int fcntl(int fd, int cmd, ...) {
  va_list v; va_start(v, cmd); void *x = va_arg(v, void *); va_end(v);
  int r = REAL(fcntl)(fd, cmd, x);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupped(r, fd);
  return r;
}
int fcntl64(int fd, int cmd, ...) {
  va_list v; va_start(v, cmd); void *x = va_arg(v, void *); va_end(v);
  int r = REAL(fcntl64)(fd, cmd, x);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupped(r, fd);
  return r;
}
// stdio keeps written data until it is flushed: the flush can fail.
static int flush_fails(FILE *h) {
  if (!h || !S || !S->active || !fdr(fileno(h)) || !__fpending(h)) return 0;
  int a, k = op(OP_WRITE, &a);
  if (full() || fail(k)) { int e = errno; __fpurge(h); errno = e; return 1; }
  return 0;
}
int fflush(FILE *h) {
  if (flush_fails(h)) return EOF;
  return REAL(fflush)(h);
}
int fclose(FILE *h) {
  int bad = flush_fails(h), e = errno;
  int fd = h ? fileno(h) : -1;
  if (fd >= 0 && fd < 4096) fdroot[fd] = 0;
  int r = REAL(fclose)(h);
  if (bad) { errno = e; return EOF; }
  return r;
}
int dup2(int a, int b) {
  int r = REAL(dup2)(a, b);
  if (r >= 0 && r < 4096 && a >= 0 && a < 4096) { fdroot[r] = fdroot[a]; fdwr[r] = fdwr[a]; }
  return r;
}
int dup(int a) {
  int r = REAL(dup)(a);
  if (r >= 0 && r < 4096 && a >= 0 && a < 4096) { fdroot[r] = fdroot[a]; fdwr[r] = fdwr[a]; }
  return r;
}

static size_t part(size_t n, int a) {  // a in 0..255 -> prefix length
  size_t k = n * (size_t)(a & 255) / 256;
  return k;
}
ssize_t write(int fd, const void *b, size_t n) {
  ssize_t (*f)(int, const void *, size_t) = REAL(write);
  if (!fdr(fd)) return f(fd, b, n);
  int a, k = op(OP_WRITE, &a);
  if (full() || fail(k)) return -1;
  if (k == F_TORN_CRASH) { size_t m = part(n, a); if (m) f(fd, b, m); fire(k); _exit(137); }
  if (k == F_SHORT && n > 1) { n = part(n, a); if (!n) n = 1; fire(k); }
  ssize_t r = f(fd, b, n);
  if (r > 0) S->bytes += r;
  after(k);
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  ssize_t (*f)(int, const void *, size_t, off_t) = REAL(pwrite);
  if (!fdr(fd)) return f(fd, b, n, o);
  int a, k = op(OP_WRITE, &a);
  if (full() || fail(k)) return -1;
  if (k == F_TORN_CRASH) { size_t m = part(n, a); if (m) f(fd, b, m, o); fire(k); _exit(137); }
  ssize_t r = f(fd, b, n, o);
  after(k);
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t (*f)(int, const struct iovec *, int) = REAL(writev);
  if (!fdr(fd)) return f(fd, v, c);
  int a, k = op(OP_WRITE, &a);
  if (full() || fail(k)) return -1;
  if (k == F_TORN_CRASH) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t m = part(n, a);
    for (int i = 0; i < c && m; i++) {
      size_t t = v[i].iov_len < m ? v[i].iov_len : m;
      REAL(write)(fd, v[i].iov_base, t); m -= t;
    }
    fire(k); _exit(137);
  }
  ssize_t r = f(fd, v, c);
  if (r > 0) S->bytes += r;
  after(k);
  return r;
}
size_t fwrite(const void *b, size_t sz, size_t n, FILE *h) {
  size_t (*f)(const void *, size_t, size_t, FILE *) = REAL(fwrite);
  if (!S || !S->active || !fdr(fileno(h))) return f(b, sz, n, h);
  int a, k = op(OP_WRITE, &a);
  if (full() || fail(k)) return 0;
  if (k == F_TORN_CRASH) { size_t m = part(sz * n, a); fflush(h); if (m) REAL(write)(fileno(h), b, m); fire(k); _exit(137); }
  if (k == F_SHORT) { size_t m = part(n, a); fire(k); errno = ENOSPC; return f(b, sz, m, h); }
  size_t r = f(b, sz, n, h);
  after(k);
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  ssize_t (*f)(int, void *, size_t) = REAL(read);
  if (!fdr(fd) || !S->count_reads) return f(fd, b, n);
  int a, k = op(OP_READ, &a);
  if (fail(k)) return -1;
  if (k == F_SHORT && n > 1) { n = part(n, a); if (!n) n = 1; fire(k); }
  if (k == F_EOF) { fire(k); return 0; }
  ssize_t r = f(fd, b, n);
  after(k);
  return r;
}
static ssize_t pread_common(ssize_t (*f)(int, void *, size_t, off64_t), int fd, void *b, size_t n, off64_t o) {
  if (!fdr(fd) || !S->count_reads) return f(fd, b, n, o);
  int a, k = op(OP_READ, &a);
  if (fail(k)) return -1;
  if (k == F_SHORT && n > 1) { n = part(n, a); if (!n) n = 1; fire(k); }
  if (k == F_EOF) { fire(k); return 0; }
  ssize_t r = f(fd, b, n, o);
  after(k);
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  return pread_common((ssize_t (*)(int, void *, size_t, off64_t))REAL(pread), fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  return pread_common((ssize_t (*)(int, void *, size_t, off64_t))REAL(pread64), fd, b, n, o);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  ssize_t (*f)(int, int, off_t *, size_t) = REAL(sendfile);
  if (!fdr(o)) return f(o, i, off, n);
  int a, k = op(OP_COPY, &a);
  if (full() || fail(k)) return -1;
  if (k == F_TORN_CRASH) {
    struct stat st; fstat(i, &st);
    size_t m = part((size_t)st.st_size < n ? (size_t)st.st_size : n, a);
    if (m) f(o, i, off, m);
    fire(k); _exit(137);
  }
  ssize_t r = f(o, i, off, n);
  after(k);
  return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  ssize_t (*f)(int, off64_t *, int, off64_t *, size_t, unsigned) = REAL(copy_file_range);
  if (!fdr(o)) return f(i, io, o, oo, n, fl);
  int a, k = op(OP_COPY, &a);
  if (full() || fail(k)) return -1;
  ssize_t r = f(i, io, o, oo, n, fl);
  after(k);
  return r;
}
static int xdev(int ra, int rb) {
  if (S->sep_tmp && ra != rb) { fire(F_EXDEV); errno = EXDEV; return 1; }
  return 0;
}
int rename(const char *x, const char *y) {
  int (*f)(const char *, const char *) = REAL(rename);
  int ra = which(x), rb = which(y);
  if (!ra && !rb) return f(x, y);
  int a, k = op(OP_RENAME, &a);
  if (fail(k) || xdev(ra, rb)) return -1;
  int r = f(x, y);
  after(k);
  return r;
}
int renameat(int d1, const char *x, int d2, const char *y) {
  int (*f)(int, const char *, int, const char *) = REAL(renameat);
  int ra = whichat(d1, x), rb = whichat(d2, y);
  if (!ra && !rb) return f(d1, x, d2, y);
  int a, k = op(OP_RENAME, &a);
  if (fail(k) || xdev(ra, rb)) return -1;
  int r = f(d1, x, d2, y);
  after(k);
  return r;
}
int link(const char *x, const char *y) {
  int (*f)(const char *, const char *) = REAL(link);
  int ra = which(x), rb = which(y);
  if (!ra && !rb) return f(x, y);
  int a, k = op(OP_LINK, &a);
  if (fail(k) || xdev(ra, rb)) return -1;
  int r = f(x, y);
  after(k);
  return r;
}
#define SIMPLE(name, OP, decl, call, w)                      \
  int name decl {                                            \
    int (*f) decl = REAL(name);                              \
    if (!(w)) return f call;                                 \
    int a, k = op(OP, &a);                                   \
    if (fail(k)) return -1;                                  \
    int r = f call;                                          \
    after(k);                                                \
    return r;                                                \
  }
SIMPLE(unlink, OP_UNLINK, (const char *p), (p), which(p))
SIMPLE(unlinkat, OP_UNLINK, (int d, const char *p, int fl), (d, p, fl), whichat(d, p))
SIMPLE(rmdir, OP_RMDIR, (const char *p), (p), which(p))
SIMPLE(mkdir, OP_MKDIR, (const char *p, mode_t m), (p, m), which(p))
SIMPLE(truncate, OP_TRUNC, (const char *p, off_t n), (p, n), which(p))
SIMPLE(ftruncate, OP_TRUNC, (int fd, off_t n), (fd, n), fdr(fd))
SIMPLE(ftruncate64, OP_TRUNC, (int fd, off64_t n), (fd, n), fdr(fd))
SIMPLE(fsync, OP_FSYNC, (int fd), (fd), fdr(fd))
