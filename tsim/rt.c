// Run-time of the thread simulator: one simulated thread runs at a time, and a
// seeded (or recorded) schedule decides at every callback the compiler placed in
// the library (block edge, load, store, atomic) and at every lock, sleep, thread
// or output call which thread runs next.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>

typedef uint64_t u64;
#define MAXT 16
#define MAXSW 200000
enum { FREE, READY, BLOCKED, JOINING, DONE };
struct T {
  int state;
  volatile int token;
  u64 ev;            // callbacks of this thread so far
  u64 next;          // replay: switch at this count
  u64 clock;         // virtual time of this thread, ns
  u64 rnd;           // its entropy source
  uintptr_t addr;    // futex it waits for
  int wake;          // result of the wait
  int join;          // thread it joins
  uintptr_t lastaddr; u64 lastval; int same;
  u64 ctr;
  char *out; size_t nout, cout;
  pthread_t id;
  u64 quiet;         // callbacks since it was last scheduled
};
struct Sw { u64 ev; int from, to, forced; };
static struct T T[MAXT];
static int nT;
static volatile int on;
static int cur;
static __thread int me = -1;
static u64 now_stamp;
static u64 total_ev, total_iv, limit_ev;
static int verdict; // 1 deadlock, 2 step limit, 3 too many threads/switches
static volatile int finished;

// schedule
static int mode;            // 0 replay, 1 coin at sync points, 2 PCT over sync points, 3 PCT over all, 4 coin over all, 5 coin at sync points favouring rarely used addresses
static u64 rs[4];
static double prob;
static u64 points[64]; static int npoints, ipoint;
static u64 skip;            // mode 4: callbacks until the next preemption
static struct Sw *log_; static int nlog;
static struct Sw *rep; static int nrep;
static u64 n_spurious, n_shortw, n_eintr, n_preempt, n_forced, n_futexwait;
static double p_spurious, p_short, p_eintr;
static u64 wall0;
static uintptr_t glo, ghi, tlo, thi;
extern char __data_start, _end;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static u64 rol(u64 x, int k) { return x << k | x >> (64 - k); }
static u64 rnd(void) {
  u64 r = rol(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rol(rs[3], 45);
  return r;
}
static u64 mix(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static u64 fseed;
static int fcoin(double p, u64 salt) { return p > 0 && (double)(mix(fseed ^ (u64)me << 56 ^ T[me].ev ^ salt << 40) >> 11) / 9007199254740992.0 < p; }
static int coin(double p) { return p > 0 && (double)(rnd() >> 11) / 9007199254740992.0 < p; }

static void wait_token(int t) {
  while (!__atomic_load_n(&T[t].token, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&T[t].token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  T[t].token = 0;
}
static void give_token(int t) {
  __atomic_store_n(&T[t].token, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&T[t].token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void stop(int v) { // the run is over: the controller reports, threads stay parked
  if (!verdict) verdict = v;
  on = 0;
  __atomic_store_n(&finished, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&finished, FUTEX_WAKE_PRIVATE, 1 << 20, 0, 0, 0);
}
static void park(void) { for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0); }

static int ready_other(int self) { // a READY thread other than self, chosen by the schedule
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (i != self && T[i].state == READY) c[n++] = i;
  if (!n) return -1;
  return mode == 0 ? c[0] : c[rnd() % n];
}
static int replay_target(int self, u64 ev) { // recorded switch of self at ev
  for (int i = 0; i < nrep; i++) if (rep[i].from == self && rep[i].ev == ev) return rep[i].to;
  return -1;
}
static void set_next(int t) {
  u64 best = ~0ull;
  for (int i = 0; i < nrep; i++) if (rep[i].from == t && !rep[i].forced && rep[i].ev > T[t].ev && rep[i].ev < best) best = rep[i].ev;
  T[t].next = best;
}
static void record(int from, int to, int forced) {
  if (nlog >= MAXSW) { stop(3); park(); }
  log_[nlog++] = (struct Sw){T[from].ev, from, to, forced};
  if (forced) n_forced++; else n_preempt++;
}
static void go(int to) { // hand over and wait for the token again
  int self = me;
  T[self].quiet = 0; T[to].quiet = 0; T[to].same = 0;
  cur = to;
  give_token(to);
  wait_token(self);
}
static void forced(void) { // current thread cannot go on (its state says why)
  int self = me, to = -1;
  if (mode == 0) { to = replay_target(self, T[self].ev); if (to >= 0 && (to >= nT || T[to].state != READY || to == self)) to = -1; }
  if (to < 0) to = ready_other(self);
  if (to < 0) {
    int all = 1;
    for (int i = 0; i < nT; i++) if (T[i].state != DONE) all = 0;
    stop(all ? 0 : 1);
    if (T[self].state == DONE) return;
    park();
  }
  record(self, to, 1);
  if (T[self].state == DONE) { cur = to; T[to].quiet = 0; give_token(to); return; }
  go(to);
}
static void preempt(int to) {
  int self = me;
  if (to < 0) to = ready_other(self);
  if (to < 0 || to == self || to >= nT || T[to].state != READY) return;
  record(self, to, 0);
  go(to);
}
#define NADDR 8192
static uintptr_t akey[NADDR]; static u64 acount[NADDR];
static double rarity(uintptr_t a) { // the more often a shared word was used, the less likely a preemption there
  if (a < glo || a >= ghi) return 0.02;
  uintptr_t k = a - glo + 1;
  for (unsigned i = (unsigned)mix(k) % NADDR, n = 0; n < 64; i = (i + 1) % NADDR, n++) {
    if (!akey[i]) akey[i] = k;
    if (akey[i] == k) { u64 c = ++acount[i]; return c < 24 ? 1 : 24.0 / (double)c; }
  }
  return 0.001;
}
static uintptr_t sync_at;
static void slow(struct T *t, int sync) {
  if (total_ev > limit_ev) { stop(2); park(); }
  switch (mode) {
  case 0:
    if (t->ev == t->next) { int to = replay_target(me, t->ev); set_next(me); preempt(to); }
    break;
  case 1: if (sync && coin(prob)) preempt(-1); break;
  case 2: if (sync && ipoint < npoints && total_iv >= points[ipoint]) { while (ipoint < npoints && total_iv >= points[ipoint]) ipoint++; preempt(-1); } break;
  case 3: if (ipoint < npoints && total_ev >= points[ipoint]) { while (ipoint < npoints && total_ev >= points[ipoint]) ipoint++; preempt(-1); } break;
  case 5: if (sync && coin(prob * rarity(sync_at))) preempt(-1); break;
  case 4: if (skip == 0) { skip = 1 + (u64)(rnd() % (u64)(2.0 / prob)); preempt(-1); } else skip--; break;
  }
}
static inline void event_at(int sync, uintptr_t at) {
  int m = me;
  if (m < 0 || !on) return;
  struct T *t = &T[m];
  t->ev++; total_ev++;
  if (sync) { total_iv++; now_stamp++; }
  t->quiet++;
  if (mode == 1 && !sync && total_ev <= limit_ev) return;
  if (mode == 2 && !sync && total_ev <= limit_ev) return;
  if (mode == 5 && !sync && total_ev <= limit_ev) return;
  sync_at = at;
  slow(t, sync);
}
static inline void event(int sync) { event_at(sync, 0); }
static void spin_check(uintptr_t a, u64 v) { // a thread polling one word lets the others run
  int m = me;
  if (m < 0 || !on) return;
  struct T *t = &T[m];
  if (t->lastaddr == a && t->lastval == v) {
    if (++t->same > 40) { t->same = 0; t->ev++; total_ev++; if (ready_other(m) >= 0) { int to = mode == 0 ? replay_target(m, t->ev) : -1; if (to < 0 || to >= nT || T[to].state != READY) to = ready_other(m); record(m, to, 1); go(to); } }
  } else { t->lastaddr = a; t->lastval = v; t->same = 0; }
}

// ---- compiler callbacks -------------------------------------------------
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; event(0); }
static inline void mem(uintptr_t a) { if (me >= 0 && on) event_at(a >= glo && a < ghi, a); }
#define LS(n) void __sanitizer_cov_load##n(void *p) { mem((uintptr_t)p); } void __sanitizer_cov_store##n(void *p) { mem((uintptr_t)p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define PLAIN(n) void __tsan_read##n(void *p) { (void)p; } void __tsan_write##n(void *p) { (void)p; } \
  void __tsan_unaligned_read##n(void *p) { (void)p; } void __tsan_unaligned_write##n(void *p) { (void)p; } \
  void __tsan_read_write##n(void *p) { (void)p; } void __tsan_volatile_read##n(void *p) { (void)p; } void __tsan_volatile_write##n(void *p) { (void)p; }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void *p) { (void)p; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define PRE event_at(1, (uintptr_t)p)
#define AT(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { (void)mo; PRE; ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST); spin_check((uintptr_t)p, (u64)v); return v; } \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { (void)mo; PRE; __atomic_store_n(p, v, __ATOMIC_SEQ_CST); PRE; } \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); spin_check((uintptr_t)p, (u64)r); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { (void)mo; PRE; ty r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); PRE; return r; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; PRE; ty e = c; if (!__atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) spin_check((uintptr_t)p, (u64)e); PRE; return e; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; PRE; int r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); PRE; return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; event(1); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---- system interface ----------------------------------------------------
static long do_futex(uint32_t *a, int op, uint32_t val, const struct timespec *to) {
  struct T *t = &T[me];
  int cmd = op & 127;
  event(1);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    n_futexwait++;
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (fcoin(p_spurious, 1)) { n_spurious++; event(1); return fcoin(0.5, 2) ? -EINTR : 0; }
    t->ev++; total_ev++;
    if (to && ready_other(me) < 0) return -ETIMEDOUT;
    t->state = BLOCKED; t->addr = (uintptr_t)a; t->wake = 0;
    forced();
    return t->wake;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0, c[MAXT], k;
    while (n < (int)val) {
      k = 0;
      for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].addr == (uintptr_t)a) c[k++] = i;
      if (!k) break;
      int w = c[mix(T[me].ev ^ now_stamp) % k];
      T[w].state = READY; n++;
    }
    event(1);
    return n;
  }
  return -ENOSYS;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  long r;
  if (on && me >= 0 && n == SYS_futex) r = do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d);
  else if (on && me >= 0 && n == SYS_getrandom) { extern ssize_t getrandom(void *, size_t, unsigned); r = getrandom((void *)a, (size_t)b, (unsigned)c); }
  else r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  (void)fl;
  if (me < 0) { memset(p, 0x5a, n); return (ssize_t)n; } // harness threads: fixed entropy
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) T[me].rnd = mix(T[me].rnd); ((unsigned char *)p)[i] = (unsigned char)(T[me].rnd >> (i % 8 * 8)); }
  return (ssize_t)n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (me < 0) { long r = raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  u64 ns = 1000000000000ull + T[me].clock;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ns = wall0;
  ts->tv_sec = (time_t)(ns / 1000000000ull); ts->tv_nsec = (long)(ns % 1000000000ull);
  event(1);
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts; (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static void yield_now(void) {
  struct T *t = &T[me]; t->ev++; total_ev++;
  if (total_ev > limit_ev) { stop(2); park(); }
  if (ready_other(me) >= 0) { int to = mode == 0 ? replay_target(me, t->ev) : -1; if (to < 0 || to >= nT || T[to].state != READY) to = ready_other(me); record(me, to, 1); go(to); }
}
int sched_yield(void) { if (on && me >= 0) { yield_now(); return 0; } return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *ts, struct timespec *rem) {
  if (on && me >= 0) { if (!(fl & TIMER_ABSTIME)) T[me].clock += (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; yield_now(); return 0; }
  return (int)-raw(SYS_clock_nanosleep, id, fl, (long)ts, (long)rem, 0, 0);
}
int nanosleep(const struct timespec *ts, struct timespec *rem) { int r = clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem); if (r) { errno = r; return -1; } return 0; }

#include <stdlib.h>
ssize_t write(int fd, const void *p, size_t n) {
  if (me < 0 || (fd != 1 && fd != 2)) { long r = raw(SYS_write, fd, (long)p, (long)n, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
  struct T *t = &T[me];
  event(1);
  if (fd == 2) return (ssize_t)n;
  if (on && n > 1 && fcoin(p_short, 3)) { n_shortw++; n = 1 + mix(fseed + t->ev) % (n - 1); }
  else if (on && fcoin(p_eintr, 4)) { n_eintr++; errno = EINTR; return -1; }
  if (t->nout + n > t->cout) { t->cout = (t->nout + n) * 2 + 4096; t->out = realloc(t->out, t->cout); }
  memcpy(t->out + t->nout, p, n); t->nout += n;
  event(1);
  return (ssize_t)n;
}
#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (me < 0 || (fd != 1 && fd != 2)) { long r = raw(SYS_writev, fd, (long)v, k, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
  for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

// threads the library itself starts are simulated too
struct start { void *(*f)(void *); void *arg; int slot; };
static void *boot(void *p) {
  struct start s = *(struct start *)p; free(p);
  wait_token(s.slot); me = s.slot;
  void *r = s.f(s.arg);
  T[me].state = DONE;
  for (int i = 0; i < nT; i++) if (T[i].state == JOINING && T[i].join == me) T[i].state = READY;
  if (on) forced();
  me = -1;
  return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!on || me < 0) return real(t, at, f, arg);
  if (nT >= MAXT) { stop(3); park(); }
  struct start *s = malloc(sizeof *s); s->f = f; s->arg = arg; s->slot = nT;
  T[nT].state = READY; T[nT].rnd = mix(T[me].rnd + nT); T[nT].clock = T[me].clock; T[nT].next = ~0ull; nT++;
  int k = s->slot, r = real(t, at, boot, s);
  if (r) { T[k].state = DONE; return r; }
  T[k].id = *t;
  if (mode == 0) set_next(k);
  event(1);
  return 0;
}
int pthread_join(pthread_t t, void **rv) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (on && me >= 0)
    for (int i = 0; i < nT; i++)
      if (T[i].id == t && T[i].state != DONE) { T[me].ev++; T[me].state = JOINING; T[me].join = i; forced(); }
  return real(t, rv);
}

// ---- harness interface ----------------------------------------------------
void rt_setup(int threads, int m, u64 seed, double p, const u64 *pts, int npts, const struct Sw *r, int nr, u64 limit, u64 wall, double psp, double psh, double pei) {
  glo = (uintptr_t)&__data_start; ghi = (uintptr_t)&_end;
  nT = threads; mode = m; prob = p; limit_ev = limit; wall0 = wall;
  p_spurious = psp; p_short = psh; p_eintr = pei;
  for (int i = 0; i < 4; i++) rs[i] = mix(seed + 77 * (u64)i);
  fseed = mix(seed ^ 0xfa17);
  npoints = npts > 64 ? 64 : npts; for (int i = 0; i < npoints; i++) points[i] = pts[i];
  skip = mode == 4 ? rnd() % (u64)(2.0 / p) : 0;
  log_ = malloc(sizeof(struct Sw) * MAXSW);
  if (nr) { rep = malloc(sizeof(struct Sw) * (size_t)nr); memcpy(rep, r, sizeof(struct Sw) * (size_t)nr); nrep = nr; }
  for (int i = 0; i < nT; i++) { T[i].state = READY; T[i].next = ~0ull; if (mode == 0) set_next(i); }
}
void rt_enter(int t, u64 entropy) { T[t].rnd = mix(entropy); wait_token(t); me = t; }
void rt_leave(void) {
  T[me].state = DONE;
  for (int i = 0; i < nT; i++) if (T[i].state == JOINING && T[i].join == me) T[i].state = READY;
  if (on) forced();
  me = -1;
}
void rt_go(void) {
  on = 1;
  int first = mode == 0 ? (nrep ? replay_target(99, 0) : 0) : (int)(rnd() % (u64)nT);
  if (first < 0 || first >= nT) first = 0;
  log_[nlog++] = (struct Sw){0, 99, first, 1};
  cur = first;
  give_token(first);
}
int rt_wait(void) {
  while (!__atomic_load_n(&finished, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&finished, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  return verdict;
}
u64 rt_stamp(void) { return ++now_stamp; }
void rt_work(u64 ns) { T[me].clock += ns; event(1); }
void rt_point(void) { event(1); }
size_t rt_output(const char **p) { *p = T[me].out; size_t n = T[me].nout; return n; }
void rt_output_reset(void) { T[me].nout = 0; }
void rt_events(u64 *ev, u64 *iv) { *ev = total_ev; *iv = total_iv; }
int rt_log(const struct Sw **p) { *p = log_; return nlog; }
int rt_running(void) { return cur; }
void rt_counts(u64 *o) { o[0] = n_preempt; o[1] = n_forced; o[2] = n_spurious; o[3] = n_shortw; o[4] = n_eintr; o[5] = n_futexwait; }
// single thread, no scheduling: reference runs and set-up
void rt_solo(u64 entropy, u64 wall, u64 limit) {
  glo = (uintptr_t)&__data_start; ghi = (uintptr_t)&_end;
  nT = 1; mode = 1; prob = 0; limit_ev = limit; wall0 = wall; T[0].state = READY; T[0].rnd = mix(entropy);
  log_ = malloc(sizeof(struct Sw) * MAXSW);
  me = 0; on = 1;
}
void rt_final(void) { on = 0; me = 0; T[0].nout = 0; }
