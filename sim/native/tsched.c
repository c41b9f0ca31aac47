/* Deterministic scheduler for native threads.
 *
 * Preloaded.  The C++ file under test is compiled with -fsanitize=thread and
 * linked against the __tsan_* functions below instead of the real runtime:
 * every memory access of the real code becomes a yield point and is checked
 *   - for data races (vector clocks over create/join/mutex/atomics),
 *   - against guard ranges around buffers (out-of-bounds).
 * Threads are real, but only the one holding the baton runs; who gets it and
 * when is decided by arrays the harness fills from the seed.  pthread_create
 * can be made to fail.  All of it is inert unless `active`. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 40
#define NDEC 4096
#define TAB (1 << 18)
#define PAD 256

extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

typedef struct {
  int32_t active, free_mode, nthr, deadlock;
  int64_t steps, switches, created, create_failed;
  int32_t nd, di, npick, pi;
  int32_t gap[NDEC], tgt[NDEC], pick[NDEC];
  uint64_t fail_mask; /* bit k: the k-th pthread_create fails */
  int32_t races, oob;
  int32_t race_kind, oob_write;
  uint64_t race_addr, oob_addr;
  int32_t race_t1, race_t2;
  uint64_t sched_hash;
  int64_t overflow, accesses, max_live;
} State;

static State S;
State *tsched_state(void) { return &S; }

enum { RUN, BJOIN, BMUTEX, DONE };
typedef struct {
  int state;
  int go; /* futex */
  pthread_t h;
  pid_t tid;
  void *(*fn)(void *);
  void *arg;
  int wait_for;
  void *mutex;
  int joined;
  uint32_t vc[MAXT];
} T;
static T thr[MAXT];
static int cur;
static int64_t countdown;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static __thread int inside __attribute__((tls_model("initial-exec"))) = 0;

static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_lock)(pthread_mutex_t *);
static int (*r_trylock)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static int (*r_detach)(pthread_t);

static void init(void) {
  if (r_create) return;
  r_join = dlsym(RTLD_NEXT, "pthread_join");
  r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_detach = dlsym(RTLD_NEXT, "pthread_detach");
  r_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void ctor(void) { init(); }

/* ------------------------------------------------------------- shadow */
typedef struct {
  uint64_t key; /* granule */
  uint32_t gen;
  int16_t wt;
  uint8_t wmask, guard;
  uint32_t wclk;
  uint32_t rclk[MAXT];
  uint8_t rmask[MAXT];
} Cell;
static Cell *tab;
static uint32_t gen = 1;
static int64_t used;

static Cell *cell(uint64_t key, int make) {
  uint64_t h = key * 0x9E3779B97F4A7C15ull;
  uint32_t i = h >> 46; /* 18 bits */
  for (int n = 0; n < 256; n++, i = (i + 1) & (TAB - 1)) {
    Cell *c = &tab[i];
    if (c->gen != gen) {
      if (!make) return 0;
      memset(c, 0, sizeof *c);
      c->gen = gen;
      c->key = key;
      c->wt = -1;
      used++;
      return c;
    }
    if (c->key == key) return c;
  }
  S.overflow++;
  return 0;
}

static void clear_range(uint64_t a, uint64_t n) {
  if (!tab) return;
  if (n > (1 << 22)) n = 1 << 22;
  for (uint64_t k = a >> 2; k <= (a + n - 1) >> 2; k++) {
    Cell *c = cell(k, 0);
    if (c) {
      c->wt = -1;
      c->guard = 0;
      memset(c->rclk, 0, sizeof c->rclk);
    }
  }
}

void tsched_guard(uint64_t a, uint64_t n) {
  for (uint64_t k = (a + 3) >> 2; k < (a + n) >> 2; k++) {
    Cell *c = cell(k, 1);
    if (c) c->guard = 1;
  }
}

static void access_(uint64_t a, int size, int write) {
  S.accesses++;
  uint32_t clk = thr[me].vc[me];
  uint64_t end = a + size;
  for (uint64_t k = a >> 2; k <= (end - 1) >> 2; k++) {
    Cell *c = cell(k, 1);
    if (!c) continue;
    uint8_t mask = 0;
    for (int b = 0; b < 4; b++)
      if ((k << 2) + b >= a && (k << 2) + b < end) mask |= 1 << b;
    if (c->guard && !S.oob++) {
      S.oob_addr = a;
      S.oob_write = write;
    }
    if (c->wt >= 0 && c->wt != me && (c->wmask & mask) && c->wclk > thr[me].vc[c->wt] && !S.races++) {
      S.race_addr = a, S.race_kind = write, S.race_t1 = c->wt, S.race_t2 = me;
    }
    if (write) {
      for (int t = 0; t < S.nthr; t++)
        if (t != me && c->rclk[t] > thr[me].vc[t] && (c->rmask[t] & mask) && !S.races++) {
          S.race_addr = a, S.race_kind = 2, S.race_t1 = t, S.race_t2 = me;
        }
      if (c->wt == me && c->wclk == clk)
        c->wmask |= mask;
      else
        c->wmask = mask;
      c->wt = me, c->wclk = clk;
    } else {
      if (c->rclk[me] == clk)
        c->rmask[me] |= mask;
      else
        c->rmask[me] = mask;
      c->rclk[me] = clk;
    }
  }
}

/* sync objects: release clocks per address */
#define NSYNC 4096
static struct {
  uint64_t key;
  uint32_t gen;
  uint32_t vc[MAXT];
} sync_[NSYNC];
static void sync_acq_rel(uint64_t a) {
  uint32_t i = (a * 0x9E3779B97F4A7C15ull) >> 52;
  for (int n = 0; n < NSYNC; n++, i = (i + 1) & (NSYNC - 1)) {
    if (sync_[i].gen != gen) {
      memset(&sync_[i], 0, sizeof sync_[i]);
      sync_[i].gen = gen, sync_[i].key = a;
    }
    if (sync_[i].key == a) {
      for (int t = 0; t < MAXT; t++) {
        if (sync_[i].vc[t] > thr[me].vc[t]) thr[me].vc[t] = sync_[i].vc[t];
        else sync_[i].vc[t] = thr[me].vc[t];
      }
      thr[me].vc[me]++;
      return;
    }
  }
}

/* ------------------------------------------------------------- baton */
static void fwait(int *w) {
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static void fwake(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void reload(void) {
  if (S.di < S.nd)
    countdown = S.gap[S.di];
  else
    countdown = INT64_MAX;
}
static int runnable(int t) { return thr[t].state == RUN; }

static void give(int t) {
  S.switches++;
  S.sched_hash = (S.sched_hash ^ (uint64_t)(S.steps * 64 + t)) * 0x100000001B3ull;
  cur = t;
  fwake(&thr[t].go);
}
static void take(void) {
  fwait(&thr[me].go);
  if (!S.free_mode) thr[me].go = 0;
}

/* the current thread cannot go on: choose another one */
static int choose_other(void) {
  int c[MAXT], n = 0;
  for (int t = 0; t < S.nthr; t++)
    if (t != me && runnable(t)) c[n++] = t;
  if (!n) return -1;
  int k = S.pi < S.npick ? S.pick[S.pi++] : 0;
  return c[k % n];
}

static void yield_now(void) {
  int c[MAXT], n = 0;
  for (int t = 0; t < S.nthr; t++)
    if (t != me && runnable(t)) c[n++] = t;
  int k = S.di < S.nd ? S.tgt[S.di] : 0;
  S.di++;
  reload();
  if (!n) return;
  int t = c[k % n];
  give(t);
  take();
}

static inline int on(void) { return S.active && me >= 0 && !inside; }
static void point(void) {
  S.steps++;
  if (S.free_mode) return;
  if (--countdown <= 0) yield_now();
}

static void die(const char *m) {
  S.deadlock = 1;
  (void)!write(2, m, strlen(m));
  _exit(77);
}

static void block(int st) {
  if (S.free_mode) return;
  thr[me].state = st;
  int t = choose_other();
  if (t < 0) die("tsched: deadlock\n");
  give(t);
  take();
}

static void *start(void *p) {
  int i = (int)(intptr_t)p;
  me = i;
  inside = 1;
  thr[i].tid = syscall(SYS_gettid);
  pthread_attr_t a;
  void *lo;
  size_t n;
  fwait(&thr[i].go);
  if (!S.free_mode) thr[i].go = 0;
  if (!pthread_getattr_np(pthread_self(), &a)) {
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    uint64_t top = (uint64_t)lo + n, here = (uint64_t)&lo;
    uint64_t from = here - 65536 > (uint64_t)lo ? here - 65536 : (uint64_t)lo;
    clear_range(from, top - from);
  }
  inside = 0;
  void *r = thr[i].fn(thr[i].arg);
  inside = 1;
  thr[i].state = DONE;
  for (int t = 0; t < S.nthr; t++)
    if (thr[t].state == BJOIN && thr[t].wait_for == i) thr[t].state = RUN;
  if (!S.free_mode) {
    int t = choose_other();
    if (t < 0) die("tsched: deadlock at exit\n");
    me = -1;
    give(t);
  }
  me = -1;
  return r;
}

int pthread_create(pthread_t *h, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  init();
  if (!on() || S.nthr >= MAXT) return r_create(h, attr, fn, arg);
  int k = S.created + S.create_failed;
  if (k < 64 && (S.fail_mask >> k & 1)) {
    S.create_failed++;
    return EAGAIN;
  }
  int i = S.nthr;
  memset(&thr[i], 0, sizeof thr[i]);
  thr[i].fn = fn, thr[i].arg = arg, thr[i].state = RUN;
  if (S.free_mode) thr[i].go = 1;
  thr[me].vc[me]++;
  memcpy(thr[i].vc, thr[me].vc, sizeof thr[i].vc);
  thr[i].vc[i] = 1;
  thr[me].vc[me]++;
  S.nthr++;
  S.created++;
  inside = 1;
  int r = r_create(h, attr, start, (void *)(intptr_t)i);
  inside = 0;
  if (r) {
    thr[i].state = DONE;
    return r;
  }
  thr[i].h = *h;
  int live = 0;
  for (int t = 1; t < S.nthr; t++) live += thr[t].state != DONE;
  if (live > S.max_live) S.max_live = live;
  point();
  return 0;
}

int pthread_join(pthread_t h, void **ret) {
  init();
  if (!on()) return r_join(h, ret);
  int i = -1;
  for (int t = 1; t < S.nthr; t++)
    if (!thr[t].joined && pthread_equal(thr[t].h, h)) i = t;
  if (i < 0) return r_join(h, ret);
  point();
  if (thr[i].state != DONE && !S.free_mode) {
    thr[me].wait_for = i;
    block(BJOIN);
  }
  inside = 1;
  int r = r_join(h, ret);
  inside = 0;
  thr[i].joined = 1;
  for (int t = 0; t < MAXT; t++)
    if (thr[i].vc[t] > thr[me].vc[t]) thr[me].vc[t] = thr[i].vc[t];
  return r;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!r_lock) init();
  if (!on()) return r_lock(m);
  inside = 1;
  while (!S.free_mode && r_trylock(m) == EBUSY) {
    thr[me].mutex = m;
    thr[me].state = BMUTEX;
    int t = choose_other();
    if (t < 0) die("tsched: deadlock on mutex\n");
    give(t);
    take();
  }
  if (S.free_mode) r_lock(m);
  sync_acq_rel((uint64_t)m);
  inside = 0;
  point();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!r_lock) init();
  if (!on()) return r_unlock(m);
  inside = 1;
  sync_acq_rel((uint64_t)m);
  int r = r_unlock(m);
  for (int t = 0; t < S.nthr; t++)
    if (thr[t].state == BMUTEX && thr[t].mutex == m) thr[t].state = RUN;
  inside = 0;
  point();
  return r;
}

/* ------------------------------------------------------------- heap */
void free(void *p) {
  if (p && S.active && me >= 0 && !inside) {
    inside = 1;
    clear_range((uint64_t)p, malloc_usable_size(p));
    inside = 0;
  }
  __libc_free(p);
}
int posix_memalign(void **out, size_t al, size_t n) {
  if (S.active && me >= 0 && !inside) {
    inside = 1;
    char *p = __libc_memalign(al, n + PAD);
    if (p) {
      clear_range((uint64_t)p, n + PAD);
      tsched_guard((uint64_t)p + ((n + 3) & ~3ull), PAD - 8);
    }
    inside = 0;
    if (!p) return ENOMEM;
    *out = p;
    return 0;
  }
  void *p = __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

/* ------------------------------------------------------------- watchdog */
/* A thread that holds the baton but sleeps in a primitive that is not
 * modelled: control is given up, the run goes on freely. */
static int wd_pid;
static void *watchdog(void *p) {
  int64_t last = -1;
  int still = 0;
  for (;;) {
    usleep(100000);
    if (!S.active || S.free_mode) {
      still = 0;
      continue;
    }
    int64_t s = S.steps + S.switches;
    char path[64], buf[256];
    snprintf(path, sizeof path, "/proc/self/task/%d/stat", thr[cur].tid);
    int fd = open(path, O_RDONLY);
    int n = fd >= 0 ? read(fd, buf, sizeof buf - 1) : -1;
    if (fd >= 0) close(fd);
    char st = '?';
    if (n > 0) {
      buf[n] = 0;
      char *q = strrchr(buf, ')');
      if (q) st = q[2];
    }
    if (s == last && st == 'S')
      still++;
    else
      still = 0;
    last = s;
    if (still >= 8) {
      S.free_mode = 1;
      for (int t = 0; t < S.nthr; t++) fwake(&thr[t].go);
    }
  }
  return 0;
}

/* ------------------------------------------------------------- window */
void tsched_begin(void) {
  init();
  if (!tab) tab = calloc(TAB, sizeof(Cell));
  if (wd_pid != getpid()) {
    pthread_t h;
    pthread_attr_t a;
    wd_pid = getpid();
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    r_create(&h, &a, watchdog, 0);
  }
  gen++;
  used = 0;
  memset(&thr[0], 0, sizeof thr[0]);
  thr[0].state = RUN;
  thr[0].vc[0] = 1;
  thr[0].tid = syscall(SYS_gettid);
  S.nthr = 1;
  S.steps = S.switches = S.created = S.create_failed = 0;
  S.di = S.pi = 0;
  S.races = S.oob = S.deadlock = S.free_mode = 0;
  S.sched_hash = 0xcbf29ce484222325ull;
  S.overflow = S.accesses = S.max_live = 0;
  me = 0;
  cur = 0;
  inside = 0;
  reload();
}
void tsched_go(void) { S.active = 1; }
/* the call under test returned; threads it left behind are run to their end */
int tsched_end(void) {
  int left = 0;
  for (;;) {
    int live = 0;
    for (int t = 1; t < S.nthr; t++) live += thr[t].state != DONE;
    if (!live) break;
    left = left > live ? left : live;
    if (S.free_mode) {
      usleep(1000);
      continue;
    }
    int t = choose_other();
    if (t < 0) break;
    give(t);
    take();
  }
  S.active = 0;
  me = -1;
  return left;
}

/* ------------------------------------------------------------- tsan ABI */
#define ACC(name, size, w)                      \
  void __tsan_##name(void *p) {                 \
    if (!on()) return;                          \
    inside = 1;                                 \
    if (!S.free_mode) access_((uint64_t)p, size, w); \
    point();                                    \
    inside = 0;                                 \
  }
ACC(read1, 1, 0) ACC(read2, 2, 0) ACC(read4, 4, 0) ACC(read8, 8, 0) ACC(read16, 16, 0)
ACC(write1, 1, 1) ACC(write2, 2, 1) ACC(write4, 4, 1) ACC(write8, 8, 1) ACC(write16, 16, 1)
ACC(unaligned_read2, 2, 0) ACC(unaligned_read4, 4, 0) ACC(unaligned_read8, 8, 0) ACC(unaligned_read16, 16, 0)
ACC(unaligned_write2, 2, 1) ACC(unaligned_write4, 4, 1) ACC(unaligned_write8, 8, 1) ACC(unaligned_write16, 16, 1)
ACC(volatile_read1, 1, 0) ACC(volatile_read2, 2, 0) ACC(volatile_read4, 4, 0) ACC(volatile_read8, 8, 0)
ACC(volatile_write1, 1, 1) ACC(volatile_write2, 2, 1) ACC(volatile_write4, 4, 1) ACC(volatile_write8, 8, 1)
void __tsan_read_range(void *p, unsigned long n) {
  if (!on() || !n) return;
  inside = 1;
  if (!S.free_mode) access_((uint64_t)p, n > 4096 ? 4096 : n, 0);
  point();
  inside = 0;
}
void __tsan_write_range(void *p, unsigned long n) {
  if (!on() || !n) return;
  inside = 1;
  if (!S.free_mode) access_((uint64_t)p, n > 4096 ? 4096 : n, 1);
  point();
  inside = 0;
}
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

static void at_(void *p) {
  if (!on()) return;
  inside = 1;
  if (!S.free_mode) sync_acq_rel((uint64_t)p);
  point();
  inside = 0;
}
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(B, TY)                                                                              \
  TY __tsan_atomic##B##_load(const volatile TY *a, int mo) { at_((void *)a); return __atomic_load_n(a, SC); }       \
  void __tsan_atomic##B##_store(volatile TY *a, TY v, int mo) { at_((void *)a); __atomic_store_n(a, v, SC); }       \
  TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_exchange_n(a, v, SC); } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_add(a, v, SC); } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_sub(a, v, SC); } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_and(a, v, SC); } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_or(a, v, SC); }   \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_xor(a, v, SC); } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int mo) { at_((void *)a); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int f) {                          \
    at_((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }                                         \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int f) {                            \
    at_((void *)a); return __atomic_compare_exchange_n(a, c, v, 0, SC, SC); }                                         \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int f) {                               \
    at_((void *)a); __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) {}
