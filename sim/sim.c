// libsim.so: a deterministic simulator for one process, installed below libc.
//
// The program under test (the real tokengeex CLI, a driver linked with the
// real library, or a Python interpreter with the real binding) runs unmodified
// on real OS threads, but exactly one of them is ever released: this library
// owns the baton.  Every source of nondeterminism goes through a function
// interposed here:
//   threads          pthread_create / pthread_join / thread exit
//   locks, condvars  syscall(SYS_futex, ...) is emulated, not executed
//   atomics          __tsan_atomic* (the program is compiled with LLVM's tsan
//                    pass, which turns each atomic operation into a call)
//   yields, sleeps   sched_yield, nanosleep, clock_nanosleep
//   clocks           clock_gettime, gettimeofday, time
//   randomness       getrandom, getentropy, SYS_getrandom
//   memory           malloc/calloc/realloc/posix_memalign
//   disk             open/read/write/close/fsync/rename/... on the run's disk
//                    (relative paths, or absolute ones under the start cwd)
//   cpu count        sched_getaffinity, /proc/self/cgroup, sysconf
// One integer seed decides every choice.  Choices that differ from the default
// policy are appended to a log in shared memory; a log given back as a script
// replays the run, and can be minimised entry by entry.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
#define EXPORT __attribute__((visibility("default")))
#define MAXTH 512
#define MAXDEC (1u << 17)
#define MAXLOG 8192

// ------------------------------------------------------------ raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAWX(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAWX(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ------------------------------------------------------------ shared log
enum {
  C_ATOMIC, C_FUTEX_WAIT, C_FUTEX_WAKE, C_YIELD, C_SLEEP, C_MALLOC, C_IO, C_CREATE, C_JOIN, C_EXIT,
  C_CLOCK, C_ENTROPY, C_PREEMPT, C_FORCED, C_TIMERJUMP,
  // faults that fired
  F_SPURIOUS, F_STALL, F_CLOCKJUMP, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EIO_READ, F_EIO_WRITE,
  F_ENOSPC, F_OPEN_FAIL, F_FSYNC_FAIL, F_RENAME_FAIL, F_MALLOC, F_THREAD, F_CRASH_STEP, F_CRASH_IO, F_POWERLOSS,
  F_LOST_PAGE, F_LOST_META, F_FUTEX_EINTR, F_MEMCAP, F_CLOSE_FAIL, F_WALLJUMP,
  NCNT = 64
};
enum { K_PREEMPT = 1, K_CHOOSE, K_IO, K_MALLOC, K_SPURIOUS, K_CRASH, K_THREAD, K_JUMP, K_STALL, K_WAKE, K_PRIO };
enum { O_NONE, O_EXIT, O_DEADLOCK, O_BUDGET, O_CRASHED, O_SCRIPTERR };
struct dec {
  u64 key;  // step, or I/O, malloc or create index, by kind
  u32 kind, a;
  u64 b;
};
struct shm {
  u64 magic, seed, steps, now, hash, io_ops, mallocs, creates, threads, outcome, max_live, mem_peak;
  u64 cnt[NCNT];
  u64 blocked_futex, ndec, dec_overflow, io_first_write, sched_points;
  u64 first_wopen_step, last_read_step, last_create_step, last_create_mallocs, first_wopen_mallocs, nlog, mal_sites, pad;
  struct dec dec[MAXDEC];
  u64 log[MAXLOG][12];  // for each write to stderr: step, simulated time, thread, bytes written before it, then the steps taken so far by threads 0 to 7
};

// ------------------------------------------------------------ state
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
struct th {
  int id, state, timed, timedout, woken, joined, exit_round;
  u32 go;
  uintptr_t faddr;
  u32 fbits;
  u64 wake;
  u64 ent_ctr;
  u64 stall_until;
  u64 prio, taken;
  int join_target;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
};
static struct {
  int on, mode, ncpu, scripted, pyext;
  u64 seed, budget, tick, credit, mean, malloc_w;
  u64 rs, rf;  // schedule and fault PRNG states
  u64 steps, now, hash;
  long long cred;
  u64 next_ev;
  u64 rt_base;
  // pct
  u64 chg[16];
  int nchg, ichg;
  u64 lowprio;
  int pct;  // the run is, or replays, a priority schedule
  // faults (parts per 10^6 unless stated)
  u64 p_spur, p_stall, p_eintr, p_sread, p_swrite, p_eior, p_eiow, p_open, p_fsync, p_rename, p_close, p_futexintr;
  u64 disk_cap;   // bytes that may be written, ~0 = no limit
  u64 disk_used;
  u64 malloc_fail, malloc_fail_n, malloc_size, malloc_site, malloc_occ, mem_cap, thread_fail;
  u64 crash_step, crash_io, crash_power;
  u64 jump_step, jump_ns;
  u64 wall_step, wall_ns, wall_back;  // the wall clock is set, once
  u64 io_stdio;
  u64 io_arm;  // faults only from this I/O op on
} G;
static struct th T[MAXTH];
static int nth;
static __thread struct th *me __attribute__((tls_model("initial-exec")));
static struct shm *S;
static struct shm S_dummy_hdr;
static pthread_key_t key;
static uintptr_t exe_lo, exe_hi;
static char cwd0[PATH_MAX];
static size_t cwd0len;
static struct dec *script;
static u64 nscript;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static long long mem_live, mem_peak;
static u64 mal_big, mal_occ;

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rnd(u64 *s) {
  *s += 0x9e3779b97f4a7c15ull;
  u64 z = *s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int chance(u64 ppm) { return ppm && rnd(&G.rf) % 1000000 < ppm; }
static void hash_in(u64 a, u64 b) { G.hash = mix(G.hash ^ a) + mix(b * 0x2545f4914f6cdd1dull + 1); }

static void sync_shm(void) {
  S->steps = G.steps;
  S->now = G.now;
  S->hash = G.hash;
  S->threads = nth;
  S->mem_peak = mem_peak;
}
static void finish(u64 outcome, int code) {
  S->outcome = outcome;
  sync_shm();
  G.on = 0;
  for (;;) RAW(SYS_exit_group, code);
}
static void logdec(u32 kind, u64 k, u32 a, u64 b) {
  hash_in(kind * 1000003ull + k, a * 31ull + b);
  if (S->ndec < MAXDEC)
    S->dec[S->ndec++] = (struct dec){k, kind, a, b};
  else
    S->dec_overflow = 1;
}
static struct dec *find(u32 kind, u64 k) {
  // the script is sorted by (kind, key)
  u64 lo = 0, hi = nscript;
  while (lo < hi) {
    u64 m = (lo + hi) / 2;
    if (script[m].kind < kind || (script[m].kind == kind && script[m].key < k))
      lo = m + 1;
    else
      hi = m;
  }
  if (lo < nscript && script[lo].kind == kind && script[lo].key == k) return &script[lo];
  return 0;
}

// ------------------------------------------------------------ scheduler
static long exiting;  // the kernel's name for the thread that handed over for the last time
static void park(struct th *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) RAW(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  // its stack and arena must be back before anyone allocates: addresses decide
  // the shape of address-keyed trees, such as the one std keeps of its threads
  if (exiting) {
    long pid = RAW(SYS_getpid);
    while (RAW(SYS_tgkill, pid, exiting, 0) != -ESRCH) RAW(SYS_sched_yield);
    exiting = 0;
  }
}
static void hand(struct th *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1);
}
static void wake_due(void) {
  for (int i = 0; i < nth; i++) {
    struct th *t = &T[i];
    if ((t->state == T_SLEEP || (t->state == T_FUTEX && t->timed)) && t->wake <= G.now) {
      t->timedout = 1;
      t->state = T_RUN;
    }
  }
}
// The runnable threads, after timers; jumps the clock when nothing else can run.
static int runnable(int *out) {
  for (;;) {
    wake_due();
    int n = 0, st = 0;
    for (int i = 0; i < nth; i++)
      if (T[i].state == T_RUN) {
        if (T[i].stall_until > G.steps)
          st++;
        else
          out[n++] = i;
      }
    if (n) return n;
    if (st) {
      for (int i = 0; i < nth; i++) T[i].stall_until = 0;
      continue;
    }
    u64 w = ~0ull;
    for (int i = 0; i < nth; i++)
      if ((T[i].state == T_SLEEP || (T[i].state == T_FUTEX && T[i].timed)) && T[i].wake < w) w = T[i].wake;
    if (w == ~0ull) {
      finish(O_DEADLOCK, 97);
    }
    S->cnt[C_TIMERJUMP]++;
    if (w > G.now) G.now = w;
  }
}
static void draw_credit(void) {
  // geometric-like: uniform in [1, 2*mean]
  G.cred = 1 + (long long)(rnd(&G.rs) % (2 * G.mean * 16));
}
static int rr_default(int *r, int n, int from) {
  for (int i = 0; i < n; i++)
    if (r[i] > from) return r[i];
  return r[0];
}
// choose who runs next; forced: current thread cannot (or should not) continue
static int choose(u32 kind, int from) {
  int r[MAXTH];
  // a thread that resumes may have to choose again at once: keys stay unique
  if (kind != K_PREEMPT) G.steps++;
  int n = runnable(r);
  int def = rr_default(r, n, from);
  int pick = def;
  if (G.scripted) {
    struct dec *d = find(kind, G.steps);
    if (d)
      for (int i = 0; i < n; i++)
        if (r[i] == (int)d->a) pick = r[i];
    if (pick != def || (d && (kind == K_PREEMPT || kind == K_PRIO))) logdec(kind, G.steps, pick, 0);
    return pick;
  }
  if (n > 1) {
    if (G.mode == 2) {
      u64 best = 0;
      for (int i = 0; i < n; i++)
        if (T[r[i]].prio >= best) best = T[r[i]].prio, pick = r[i];
    } else if (G.mode == 1 || G.mode == 3) {
      pick = r[rnd(&G.rs) % n];
    }
  }
  if (pick != def || kind == K_PREEMPT || kind == K_PRIO) logdec(kind, G.steps, pick, 0);
  return pick;
}
static void switch_to(int t) {
  struct th *m = me;
  if (t == m->id) return;
  hash_in(G.steps, t);
  hand(&T[t]);
  park(m);
}
static void set_next_ev(void) {
  u64 e = G.budget;
  if (G.crash_step && G.crash_step < e) e = G.crash_step;
  if (G.jump_step && G.jump_step < e) e = G.jump_step;
  if (G.mode == 2 && G.ichg < G.nchg && G.chg[G.ichg] < e) e = G.chg[G.ichg];
  G.next_ev = e;
}
static void powerloss(void);
static void do_crash(int cntidx) {
  S->cnt[cntidx]++;
  if (G.crash_power) {
    S->cnt[F_POWERLOSS]++;
    powerloss();
  }
  finish(O_CRASHED, 96);
}
static void slow_sp(void) {
  if (G.steps >= G.budget) finish(O_BUDGET, 98);
  if (G.crash_step && G.steps >= G.crash_step) {
    logdec(K_CRASH, G.crash_step, 0, G.crash_power);
    do_crash(F_CRASH_STEP);
  }
  if (G.jump_step && G.steps >= G.jump_step) {
    G.now += G.jump_ns;
    S->cnt[F_CLOCKJUMP]++;
    logdec(K_JUMP, G.jump_step, 0, G.jump_ns);
    G.jump_step = 0;
  }
  if (G.mode == 2 && G.ichg < G.nchg && G.steps >= G.chg[G.ichg]) {
    while (G.ichg < G.nchg && G.steps >= G.chg[G.ichg]) G.ichg++;
    me->prio = --G.lowprio;
    int t = choose(K_PREEMPT, me->id);
    S->cnt[C_PREEMPT]++;
    set_next_ev();
    switch_to(t);
    return;
  }
  set_next_ev();
}
static void preempt_now(void) {
  draw_credit();
  if (nth < 2) return;
  if (G.p_stall && chance(G.p_stall)) {
    u64 k = G.steps;
    me->stall_until = G.steps + 1 + rnd(&G.rf) % (200 * G.mean);
    S->cnt[F_STALL]++;
    logdec(K_STALL, k, me->id, me->stall_until - k);
  }
  S->cnt[C_PREEMPT]++;
  int t = choose(K_PREEMPT, me->id);
  switch_to(t);
}
// One scheduling point.  w: how much of the preemption credit it uses.
static inline void sp(int kind, long w) {
  struct th *m = me;
  if (!G.on || !m) return;
  G.steps++;
  m->taken++;
  G.now += G.tick;
  S->cnt[kind]++;
  if (__builtin_expect(G.steps >= G.next_ev, 0)) slow_sp();
  if (G.mode == 1 || G.mode == 3) {
    if (!G.scripted) {
      G.cred -= w;
      if (G.cred <= 0) preempt_now();
    }
  }
  if (G.scripted && nscript) {
    struct dec *d = find(K_STALL, G.steps);
    if (d) {
      me->stall_until = G.steps + d->b;
      S->cnt[F_STALL]++;
      logdec(K_STALL, G.steps, me->id, d->b);
    }
    d = find(K_PREEMPT, G.steps);
    if (d) {
      int r[MAXTH], n = runnable(r), to = me->id;
      for (int i = 0; i < n; i++)
        if (r[i] == (int)d->a) to = r[i];
      S->cnt[C_PREEMPT]++;
      logdec(K_PREEMPT, G.steps, to, 0);
      switch_to(to);
    }
  }
}
// the current thread has just been put in a blocked state: run someone else
static void block(void) {
  S->cnt[C_FORCED]++;
  int t = choose(K_CHOOSE, me->id);
  if (t != me->id)
    switch_to(t);
}
// a higher-priority thread may have become runnable (priority mode only)
static void maybe_pct(void) {
  if (!G.pct) return;
  if (G.scripted && !find(K_PRIO, G.steps + 1)) {
    G.steps++;
    return;
  }
  int t = choose(K_PRIO, me->id);
  if (G.scripted && t != me->id) {
    struct dec *d = find(K_PRIO, G.steps);
    if ((int)d->a != t) return;  // a minimised script may name a thread that cannot run
  }
  switch_to(t);
}

// ------------------------------------------------------------ threads
static void thread_done(void *p) {
  struct th *t = p;
  if (!G.on) return;
  if (t->exit_round < 3) {
    t->exit_round++;
    pthread_setspecific(key, t);
    return;
  }
  G.steps++;
  S->cnt[C_EXIT]++;
  t->state = T_DONE;
  for (int i = 0; i < nth; i++)
    if (T[i].state == T_JOIN && T[i].join_target == t->id) T[i].state = T_RUN;
  int n = choose(K_CHOOSE, t->id);
  hash_in(G.steps, n);
  me = 0;
  exiting = RAW(SYS_gettid);
  hand(&T[n]);
}
static void *tramp(void *p) {
  struct th *t = p;
  me = t;
  park(t);
  pthread_setspecific(key, t);
  return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!G.on || !me) return real_pthread_create(pt, at, fn, arg);
  sp(C_CREATE, 16);
  u64 idx = S->creates++;
  S->last_create_step = G.steps;
  S->last_create_mallocs = S->mallocs;
  int fail = 0;
  if (G.scripted)
    fail = find(K_THREAD, idx) != 0;
  else
    fail = G.thread_fail && idx + 1 == G.thread_fail;
  if (fail) {
    S->cnt[F_THREAD]++;
    logdec(K_THREAD, idx, 0, 0);
    return EAGAIN;
  }
  if (nth >= MAXTH) return EAGAIN;
  struct th *t = &T[nth];
  memset(t, 0, sizeof *t);
  t->id = nth;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000000 + rnd(&G.rs) % 1000000;
  int r = real_pthread_create(pt, at, tramp, t);
  if (r) return r;
  t->pt = *pt;
  t->state = T_RUN;
  nth++;
  int live = 0;
  for (int i = 0; i < nth; i++) live += T[i].state != T_DONE;
  if ((u64)live > S->max_live) S->max_live = live;
  maybe_pct();
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (G.on && me) {
    sp(C_JOIN, 16);
    for (int i = nth - 1; i >= 0; i--)
      if (T[i].state != T_FREE && !T[i].joined && i > 0 && pthread_equal(T[i].pt, pt)) {
        if (T[i].state != T_DONE) {
          me->state = T_JOIN;
          me->join_target = i;
          block();
        }
        T[i].joined = 1;
        break;
      }
  }
  return real_pthread_join(pt, ret);
}
EXPORT int sched_yield(void) {
  if (!G.on || !me) return RAW(SYS_sched_yield);
  sp(C_YIELD, 4);
  if (G.mode == 2) me->prio = --G.lowprio;
  int t = choose(K_CHOOSE, me->id);
  switch_to(t);
  return 0;
}

// ------------------------------------------------------------ futex
static u64 ts_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
#define MONO_BASE 1000000000000ull
static long futex_op(u32 *addr, int op, u32 val, const struct timespec *to, u32 *addr2, u32 val3) {
  int cmd = op & FUTEX_CMD_MASK;
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      sp(C_FUTEX_WAIT, 16);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
        errno = EAGAIN;
        return -1;
      }
      if (!G.scripted && chance(G.p_spur)) {
        S->cnt[F_SPURIOUS]++;
        logdec(K_SPURIOUS, G.steps, 0, 0);
        return 0;
      }
      if (!G.scripted && chance(G.p_futexintr)) {
        S->cnt[F_FUTEX_EINTR]++;
        logdec(K_SPURIOUS, G.steps, 1, 0);
        errno = EINTR;
        return -1;
      }
      if (G.scripted) {
        struct dec *d = find(K_SPURIOUS, G.steps);
        if (d) {
          logdec(K_SPURIOUS, G.steps, d->a, 0);
          if (d->a) {
            S->cnt[F_FUTEX_EINTR]++;
            errno = EINTR;
            return -1;
          }
          S->cnt[F_SPURIOUS]++;
          return 0;
        }
      }
      me->faddr = (uintptr_t)addr;
      me->fbits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
      me->timed = 0;
      me->timedout = me->woken = 0;
      if (to) {
        me->timed = 1;
        if (cmd == FUTEX_WAIT)
          me->wake = G.now + ts_ns(to);
        else {
          u64 base = (op & FUTEX_CLOCK_REALTIME) ? G.rt_base : MONO_BASE;
          u64 a = ts_ns(to);
          me->wake = a > base ? a - base : 0;
        }
      }
      me->state = T_FUTEX;
      S->blocked_futex++;
      block();
      me->faddr = 0;
      if (!me->woken && me->timedout) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
      sp(C_FUTEX_WAKE, 16);
      u32 bits = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
      long n = 0;
      while (n < (long)val) {
        int w[MAXTH], k = 0;
        for (int i = 0; i < nth; i++)
          if (T[i].state == T_FUTEX && T[i].faddr == (uintptr_t)addr && (T[i].fbits & bits)) w[k++] = i;
        if (!k) break;
        int c = w[0];
        if (k > 1) {
          if (G.scripted) {
            struct dec *d = find(K_WAKE, G.steps * 16 + (n & 15));
            if (d)
              for (int i = 0; i < k; i++)
                if (w[i] == (int)d->a) c = w[i];
          } else if (G.mode)
            c = w[rnd(&G.rs) % k];
          if (c != w[0]) logdec(K_WAKE, G.steps * 16 + (n & 15), c, 0);
        }
        T[c].state = T_RUN;
        T[c].woken = 1;
        n++;
      }
      if (n) maybe_pct();
      return n;
    }
    default:
      return ret_errno(RAW(SYS_futex, addr, op, val, to, addr2, val3));
  }
}
// ------------------------------------------------------------ pthread locks, conditions, semaphores
// glibc waits inside the library, where no call can be intercepted. These use the same memory in a
// compatible way, so that statically initialised objects work, and wait through futex_op.
static int (*real_mutex_lock)(pthread_mutex_t *), (*real_mutex_trylock)(pthread_mutex_t *), (*real_mutex_unlock)(pthread_mutex_t *);
static int (*real_cond_wait)(pthread_cond_t *, pthread_mutex_t *), (*real_cond_signal)(pthread_cond_t *), (*real_cond_broadcast)(pthread_cond_t *);
static int (*real_cond_timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static int (*real_cond_clockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
static int (*real_sem_post)(sem_t *), (*real_sem_wait)(sem_t *), (*real_sem_trywait)(sem_t *);
static int (*real_sem_timedwait)(sem_t *, const struct timespec *), (*real_sem_clockwait)(sem_t *, clockid_t, const struct timespec *);
static void resolve_locks(void) {
#define R(v, n) v = dlsym(RTLD_NEXT, n)
  R(real_mutex_lock, "pthread_mutex_lock"), R(real_mutex_trylock, "pthread_mutex_trylock"), R(real_mutex_unlock, "pthread_mutex_unlock");
  R(real_cond_wait, "pthread_cond_wait"), R(real_cond_signal, "pthread_cond_signal"), R(real_cond_broadcast, "pthread_cond_broadcast");
  R(real_cond_timedwait, "pthread_cond_timedwait"), R(real_cond_clockwait, "pthread_cond_clockwait");
  R(real_sem_post, "sem_post"), R(real_sem_wait, "sem_wait"), R(real_sem_trywait, "sem_trywait");
  R(real_sem_timedwait, "sem_timedwait"), R(real_sem_clockwait, "sem_clockwait");
#undef R
}
#define REAL(v, ...) (v ? 0 : (resolve_locks(), 0), v(__VA_ARGS__))
static int m_lock(pthread_mutex_t *m, int try) {
  u32 *w = (u32 *)&m->__data.__lock;
  int kind = m->__data.__kind & 3, self = 1000 + me->id;
  if (*w && m->__data.__owner == self) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) {
      m->__data.__count++;
      return 0;
    }
    if (try) return EBUSY;
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (*w == 0)
    *w = 1;
  else {
    if (try) return EBUSY;
    for (;;) {
      if (*w == 0) break;
      *w = 2;
      futex_op(w, FUTEX_WAIT, 2, 0, 0, 0);
    }
    *w = 2;
  }
  m->__data.__owner = self;
  m->__data.__count = kind == PTHREAD_MUTEX_RECURSIVE;
  return 0;
}
static int m_unlock(pthread_mutex_t *m) {
  u32 *w = (u32 *)&m->__data.__lock;
  if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1) {
    m->__data.__count--;
    return 0;
  }
  u32 v = *w;
  m->__data.__owner = 0;
  m->__data.__count = 0;
  *w = 0;
  if (v == 2) futex_op(w, FUTEX_WAKE, 1, 0, 0, 0);
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!G.on || !me) return REAL(real_mutex_lock, m);
  int e = errno;
  sp(C_ATOMIC, 4);
  int r = m_lock(m, 0);
  errno = e;
  return r;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!G.on || !me) return REAL(real_mutex_trylock, m);
  int e = errno;
  sp(C_ATOMIC, 4);
  int r = m_lock(m, 1);
  errno = e;
  return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!G.on || !me) return REAL(real_mutex_unlock, m);
  int e = errno;
  int r = m_unlock(m);
  errno = e;
  return r;
}
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *to) {
  int e = errno, r = 0;
  u32 *w = (u32 *)c, v = *w;
  m_unlock(m);
  int op = FUTEX_WAIT_BITSET | (clk == CLOCK_REALTIME ? FUTEX_CLOCK_REALTIME : 0);
  if (futex_op(w, op, v, to, 0, ~0u) < 0 && errno == ETIMEDOUT) r = ETIMEDOUT;
  m_lock(m, 0);
  errno = e;
  return r;
}
static int c_wake(pthread_cond_t *c, int n) {
  int e = errno;
  u32 *w = (u32 *)c;
  ++*w;
  futex_op(w, FUTEX_WAKE, n, 0, 0, 0);
  errno = e;
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!G.on || !me) return REAL(real_cond_wait, c, m);
  return c_wait(c, m, CLOCK_MONOTONIC, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *to) {
  if (!G.on || !me) return REAL(real_cond_timedwait, c, m, to);
  return c_wait(c, m, c->__data.__wrefs & 2 ? CLOCK_MONOTONIC : CLOCK_REALTIME, to);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *to) {
  if (!G.on || !me) return REAL(real_cond_clockwait, c, m, clk, to);
  return c_wait(c, m, clk, to);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  if (!G.on || !me) return REAL(real_cond_signal, c);
  return c_wake(c, 1);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!G.on || !me) return REAL(real_cond_broadcast, c);
  return c_wake(c, INT_MAX);
}
static int s_wait(sem_t *s, clockid_t clk, const struct timespec *to) {
  u32 *w = (u32 *)s;
  int e = errno, op = FUTEX_WAIT_BITSET | (clk == CLOCK_REALTIME ? FUTEX_CLOCK_REALTIME : 0);
  sp(C_ATOMIC, 4);
  while (*w == 0)
    if (futex_op(w, op, 0, to, 0, ~0u) < 0 && errno == ETIMEDOUT) return -1;
  --*w;
  errno = e;
  return 0;
}
EXPORT int sem_post(sem_t *s) {
  if (!G.on || !me) return REAL(real_sem_post, s);
  int e = errno;
  ++*(u32 *)s;
  futex_op((u32 *)s, FUTEX_WAKE, 1, 0, 0, 0);
  errno = e;
  return 0;
}
EXPORT int sem_wait(sem_t *s) {
  if (!G.on || !me) return REAL(real_sem_wait, s);
  return s_wait(s, CLOCK_MONOTONIC, 0);
}
EXPORT int sem_trywait(sem_t *s) {
  if (!G.on || !me) return REAL(real_sem_trywait, s);
  sp(C_ATOMIC, 4);
  if (*(u32 *)s == 0) {
    errno = EAGAIN;
    return -1;
  }
  --*(u32 *)s;
  return 0;
}
EXPORT int sem_timedwait(sem_t *s, const struct timespec *to) {
  if (!G.on || !me) return REAL(real_sem_timedwait, s, to);
  return s_wait(s, CLOCK_REALTIME, to);
}
EXPORT int sem_clockwait(sem_t *s, clockid_t clk, const struct timespec *to) {
  if (!G.on || !me) return REAL(real_sem_clockwait, s, clk, to);
  return s_wait(s, clk, to);
}

static void entropy(void *buf, size_t n) {
  u8 *p = buf;
  u64 w = 0;
  S->cnt[C_ENTROPY]++;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) w = mix(mix(G.seed ^ 0xe17) ^ ((u64)(me ? me->id : 9999) << 40) ^ (me ? me->ent_ctr++ : i));
    p[i] = w >> (8 * (i % 8));
  }
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (G.on && me) {
    if (n == SYS_futex) return futex_op((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
    if (n == SYS_getrandom) {
      entropy((void *)a, b);
      return b;
    }
    if (n == SYS_gettid) return 1000 + me->id;
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------ randomness, time, cpus
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!G.on || !me) return ret_errno(RAW(SYS_getrandom, buf, n, flags));
  entropy(buf, n);
  return n;
}
EXPORT int getentropy(void *buf, size_t n) {
  if (!G.on || !me) return ret_errno(RAW(SYS_getrandom, buf, n, 0)) < 0 ? -1 : 0;
  entropy(buf, n);
  return 0;
}
// What the wall clock is ahead of the simulated time.
static u64 wall(void) {
  if (G.wall_step && G.steps >= G.wall_step) {
    G.wall_step = 0;
    S->cnt[F_WALLJUMP]++;
    if (!G.wall_back) G.rt_base += G.wall_ns;
    else G.rt_base -= G.wall_ns < G.rt_base / 2 ? G.wall_ns : G.rt_base / 2;
  }
  return G.rt_base;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!G.on || !me) return ret_errno(RAW(SYS_clock_gettime, id, ts));
  S->cnt[C_CLOCK]++;
  G.now += G.tick;
  u64 t = G.now + ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? wall() : MONO_BASE);
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
static int do_sleep(u64 abs) {
  sp(C_SLEEP, 16);
  me->wake = abs;
  me->timedout = 0;
  me->state = T_SLEEP;
  block();
  return 0;
}
EXPORT int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!G.on || !me) return ret_errno(RAW(SYS_nanosleep, req, rem));
  return do_sleep(G.now + ts_ns(req));
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  if (!G.on || !me) return -RAW(SYS_clock_nanosleep, id, flags, req, rem);
  u64 t = ts_ns(req);
  if (flags & TIMER_ABSTIME) {
    u64 base = id == CLOCK_REALTIME ? wall() : MONO_BASE;
    return do_sleep(t > base ? t - base : 0);
  }
  return do_sleep(G.now + t);
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&ts, 0);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts = {s, 0};
  nanosleep(&ts, 0);
  return 0;
}
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!G.on) return ret_errno(RAW(SYS_sched_getaffinity, pid, sz, set)) < 0 ? -1 : 0;
  memset(set, 0, sz);
  for (int i = 0; i < G.ncpu; i++) CPU_SET_S(i, sz, set);
  return 0;
}
static long (*real_sysconf)(int);
EXPORT long sysconf(int n) {
  if (G.on && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return G.ncpu;
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(n);
}

// ------------------------------------------------------------ memory
static void account(void *p, int sign) {
  if (!p) return;
  long long n = malloc_usable_size(p);
  mem_live += sign * n;
  if (mem_live > mem_peak) mem_peak = mem_live;
}
// Which of the program's allocations is this?  Numbered from 1 in the order in
// which they first occur; told apart by the return addresses that lie nearest
// on the stack.
#define SITES 8192
static u64 site_key[SITES], site_no[SITES];
static u64 mal_site(void) {
  u64 *sp = __builtin_frame_address(0), h = 0;
  for (int i = 0, k = 0; i < 96 && k < 6; i++)
    if (sp[i] >= exe_lo && sp[i] < exe_hi) h = mix(h ^ (sp[i] - exe_lo)), k++;
  h |= 1;
  for (u64 i = h % SITES, k = 0; k < 64; i = (i + 1) % SITES, k++) {
    if (!site_key[i]) site_key[i] = h, site_no[i] = ++S->mal_sites;
    if (site_key[i] == h) return site_no[i];
  }
  return 0;
}
static int mal_point(size_t n, void *ra) {
  if (!G.on || !me) return 0;
  if ((uintptr_t)ra < exe_lo || (uintptr_t)ra >= exe_hi) return 0;
  if (mem_live + (long long)n > (long long)G.mem_cap) {
    S->cnt[F_MEMCAP]++;
    return 1;
  }
  u64 idx = S->mallocs++;
  int fail = 0;
  if (G.scripted)
    fail = nscript && find(K_MALLOC, idx) != 0;
  else if (G.malloc_site) {
    if (mal_site() == G.malloc_site) {
      mal_occ++;
      fail = mal_occ >= G.malloc_occ && mal_occ < G.malloc_occ + G.malloc_fail_n;
    }
  } else if (G.malloc_fail && n >= G.malloc_size) {
    mal_big++;
    fail = mal_big >= G.malloc_fail && mal_big < G.malloc_fail + G.malloc_fail_n;
  }
  if (fail) {
    S->cnt[F_MALLOC]++;
    logdec(K_MALLOC, idx, 0, n);
    return 1;
  }
  sp(C_MALLOC, G.malloc_w);
  return 0;
}
EXPORT void *malloc(size_t n) {
  if (mal_point(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return 0;
  }
  void *p = __libc_malloc(n);
  if (G.on && me) account(p, 1);
  return p;
}
EXPORT void *calloc(size_t a, size_t b) {
  if (mal_point(a * b, __builtin_return_address(0))) {
    errno = ENOMEM;
    return 0;
  }
  void *p = __libc_calloc(a, b);
  if (G.on && me) account(p, 1);
  return p;
}
EXPORT void *realloc(void *o, size_t n) {
  if (mal_point(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return 0;
  }
  if (G.on && me) account(o, -1);
  void *p = __libc_realloc(o, n);
  if (G.on && me) account(p, 1);
  return p;
}
EXPORT void *memalign(size_t al, size_t n) {
  if (mal_point(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return 0;
  }
  void *p = __libc_memalign(al, n);
  if (G.on && me) account(p, 1);
  return p;
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
  if (mal_point(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return 0;
  }
  void *p = __libc_memalign(al, n);
  if (G.on && me) account(p, 1);
  return p;
}
EXPORT int posix_memalign(void **o, size_t al, size_t n) {
  if (mal_point(n, __builtin_return_address(0))) return ENOMEM;
  *o = __libc_memalign(al, n);
  if (G.on && me) account(*o, 1);
  return *o ? 0 : ENOMEM;
}
EXPORT void free(void *p) {
  if (G.on && me && p) account(p, -1);
  __libc_free(p);
}

// ------------------------------------------------------------ disk
// The run's disk is the directory the process starts in.  Files are real; this
// layer decides errors and short transfers, and keeps what had become durable
// so that a power loss can put the directory in a state a real one could leave.
#define MAXFD 1024
#define MAXOBJ 256
struct obj {
  u8 *dur;
  size_t durlen;
  int synced_once;
};
struct pent {
  char name[256];
  int cur, dur;  // object index, -1 absent
};
struct meta {
  int type;  // 1 create/link name->obj, 2 truncate obj, 3 unlink name, 4 rename a->b
  int a, b, obj;
};
static struct obj O[MAXOBJ];
static int nobj;
static struct pent P[MAXOBJ];
static int npent;
static struct meta M[4096];
static int nmeta, meta_synced;
static struct {
  int disk, obj, wr;
} FD[MAXFD];

static const char *disk_rel(const char *path) {
  if (!path || !*path) return 0;
  if (path[0] != '/') {
    while (path[0] == '.' && path[1] == '/') path += 2;
    return path;
  }
  if (cwd0len && !strncmp(path, cwd0, cwd0len) && path[cwd0len] == '/') return path + cwd0len + 1;
  return 0;
}
static u8 *slurp(const char *rel, size_t *len) {
  long fd = RAW(SYS_openat, AT_FDCWD, rel, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  struct stat st;
  if (RAW(SYS_fstat, fd, &st) < 0 || !S_ISREG(st.st_mode)) {
    RAW(SYS_close, fd);
    return 0;
  }
  u8 *p = __libc_malloc(st.st_size + 1);
  size_t n = 0;
  while (n < (size_t)st.st_size) {
    long r = RAW(SYS_read, fd, p + n, st.st_size - n);
    if (r <= 0) break;
    n += r;
  }
  RAW(SYS_close, fd);
  *len = n;
  return p;
}
static int pent_of(const char *rel) {
  for (int i = 0; i < npent; i++)
    if (!strcmp(P[i].name, rel)) return i;
  if (npent == MAXOBJ) return MAXOBJ - 1;
  struct pent *p = &P[npent];
  snprintf(p->name, sizeof p->name, "%s", rel);
  size_t len;
  u8 *d = slurp(rel, &len);
  if (d && nobj < MAXOBJ) {
    O[nobj].dur = d;
    O[nobj].durlen = len;
    O[nobj].synced_once = 1;
    p->cur = p->dur = nobj++;
  } else
    p->cur = p->dur = -1;
  return npent++;
}
static void add_meta(int type, int a, int b, int obj) {
  if (nmeta < 4096) M[nmeta++] = (struct meta){type, a, b, obj};
}
static u64 io_index(void) { return S->io_ops; }

// Decide a fault for the current I/O op.  kind: 1 open 2 read 3 write 4 fsync 5 rename/unlink 6 close 7 other
// returns 0, or an errno (>0), or -1 for a short transfer with *len reduced
// The file and offset (-1: the current one) of the read that is being decided on.
static __thread int rd_fd __attribute__((tls_model("initial-exec")));
static __thread long rd_off __attribute__((tls_model("initial-exec")));
// Where a read that is cut short ends: anywhere, but every other time where a careless
// reader would notice, within a character, next to a NUL or after CR or a backslash.
static size_t short_read(size_t len) {
  static unsigned char b[1 << 18];
  long off = rd_off >= 0 ? rd_off : RAW(SYS_lseek, rd_fd, 0, SEEK_CUR);
  long n = RAW(SYS_pread64, rd_fd, b, len < sizeof b ? len : sizeof b, off);
  if (n < 2) return 0;
  u64 r = rnd(&G.rf);
  size_t at = 1 + (r >> 1) % (n - 1);
  if (r & 1)
    for (long i = 0; i < n - 1; i++) {
      size_t p = 1 + (at - 1 + i) % (n - 1);
      if ((b[p] & 0xc0) == 0x80 || !b[p] || !b[p - 1] || b[p - 1] == '\r' || b[p - 1] == '\\') return p;
    }
  return at;
}
static int io_fault(int kind, size_t *len) {
  u64 idx = S->io_ops++;
  sp(C_IO, 16);
  hash_in(77 + kind, len ? *len : 0);
  if (kind == 2) S->last_read_step = G.steps, S->last_create_mallocs = S->mallocs;
  if (kind == 3 && !S->io_first_write) S->io_first_write = idx + 1;
  if (G.scripted) {
    struct dec *c = find(K_CRASH, 1000000000000ull + idx);
    if (c) {
      logdec(K_CRASH, 1000000000000ull + idx, 0, c->b);
      G.crash_power = c->b;
      do_crash(F_CRASH_IO);
    }
    struct dec *d = find(K_IO, idx);
    if (!d) return 0;
    int e = (int)(d->a & 0xffff), k = d->a >> 16;
    if (k != kind) return 0;
    logdec(K_IO, idx, d->a, d->b);
    if (e == 0xffff) {
      if (!len || *len <= d->b || !d->b) return 0;
      S->cnt[kind == 2 ? F_SHORT_READ : F_SHORT_WRITE]++;
      *len = d->b;
      return -1;
    }
    S->cnt[e == EINTR ? F_EINTR
                      : e == ENOSPC ? F_ENOSPC
                                    : kind == 1 ? F_OPEN_FAIL
                                                : kind == 2 ? F_EIO_READ
                                                            : kind == 3 ? F_EIO_WRITE : kind == 4 ? F_FSYNC_FAIL
                                                                                    : kind == 6 ? F_CLOSE_FAIL : F_RENAME_FAIL]++;
    return e;
  }
  if (G.crash_io && idx + 1 == G.crash_io) {
    logdec(K_CRASH, 1000000000000ull + idx, 0, G.crash_power);
    do_crash(F_CRASH_IO);
  }
  if (idx < G.io_arm) return 0;
  int e = 0;
  if (kind <= 4 && kind != 4 && chance(G.p_eintr)) {
    e = EINTR;
    S->cnt[F_EINTR]++;
  } else if (kind == 1 && chance(G.p_open)) {
    static const int es[] = {EIO, EMFILE, ENFILE, ENOMEM, EACCES};
    e = es[rnd(&G.rf) % 5];
    S->cnt[F_OPEN_FAIL]++;
  } else if (kind == 2 && chance(G.p_eior)) {
    e = EIO;
    S->cnt[F_EIO_READ]++;
  } else if (kind == 3 && chance(G.p_eiow)) {
    e = rnd(&G.rf) & 1 ? EIO : EDQUOT;
    S->cnt[F_EIO_WRITE]++;
  } else if (kind == 4 && chance(G.p_fsync)) {
    e = EIO;
    S->cnt[F_FSYNC_FAIL]++;
  } else if (kind == 5 && chance(G.p_rename)) {
    static const int es[] = {EIO, EACCES, ENOSPC};
    e = es[rnd(&G.rf) % 3];
    S->cnt[F_RENAME_FAIL]++;
  } else if (kind == 6 && chance(G.p_close)) {
    e = EIO;
    S->cnt[F_CLOSE_FAIL]++;
  } else if (kind == 3 && len && G.disk_cap != ~0ull && G.disk_used + *len > G.disk_cap) {
    size_t room = G.disk_cap > G.disk_used ? G.disk_cap - G.disk_used : 0;
    S->cnt[F_ENOSPC]++;
    if (!room)
      e = ENOSPC;
    else {
      *len = room;
      logdec(K_IO, idx, ((u32)kind << 16) | 0xffff, room);
      return -1;
    }
  } else if (len && *len > 1 && ((kind == 2 && chance(G.p_sread)) || (kind == 3 && chance(G.p_swrite)))) {
    u64 r = rnd(&G.rf);
    size_t n = (r & 3) == 0 ? 1 : 1 + (r >> 2) % (*len - 1);
    if (kind == 2 && (r & 3)) {
      n = short_read(*len);
      if (!n) return 0;
    }
    S->cnt[kind == 2 ? F_SHORT_READ : F_SHORT_WRITE]++;
    *len = n;
    logdec(K_IO, idx, ((u32)kind << 16) | 0xffff, *len);
    return -1;
  }
  if (e) logdec(K_IO, idx, ((u32)kind << 16) | e, 0);
  return e;
}
static int is_disk_fd(int fd) { return G.on && me && fd >= 0 && fd < MAXFD && FD[fd].disk; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  const char *rel = (G.on && me && dirfd == AT_FDCWD) ? disk_rel(path) : 0;
  if (!rel) {
    if (G.on && me && (!strcmp(path, "/proc/self/cgroup") || !strncmp(path, "/sys/fs/cgroup", 14))) {
      errno = ENOENT;
      return -1;
    }
    return ret_errno(RAW(SYS_openat, dirfd, path, flags, mode));
  }
  int e = io_fault(1, 0);
  if (e > 0) {
    errno = e;
    return -1;
  }
  if ((flags & O_ACCMODE) != O_RDONLY && !S->first_wopen_step)
    S->first_wopen_step = G.steps, S->first_wopen_mallocs = S->mallocs;
  int pi = pent_of(rel);
  int existed = P[pi].cur;
  long fd = RAW(SYS_openat, AT_FDCWD, path, flags, mode);
  if (fd < 0) return ret_errno(fd);
  if (flags & O_CREAT && existed < 0 && nobj < MAXOBJ) {
    struct stat st;
    if (!RAW(SYS_fstat, fd, &st) && S_ISREG(st.st_mode)) {
      O[nobj].dur = 0;
      O[nobj].durlen = 0;
      P[pi].cur = nobj++;
      add_meta(1, pi, 0, P[pi].cur);
    }
  } else if ((flags & O_TRUNC) && existed >= 0)
    add_meta(2, pi, 0, existed);
  if (fd < MAXFD) {
    FD[fd].disk = 1;
    FD[fd].obj = P[pi].cur;
    FD[fd].wr = (flags & O_ACCMODE) != O_RDONLY;
  }
  return fd;
}
EXPORT int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
EXPORT int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(d, p, fl, m);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(d, p, fl | O_LARGEFILE, m);
}
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (is_disk_fd(fd)) {
    rd_fd = fd, rd_off = -1;
    int e = io_fault(2, &n);
    if (e > 0) {
      errno = e;
      return -1;
    }
  }
  return ret_errno(RAW(SYS_read, fd, b, n));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  if (is_disk_fd(fd)) {
    rd_fd = fd, rd_off = off;
    int e = io_fault(2, &n);
    if (e > 0) {
      errno = e;
      return -1;
    }
  }
  return ret_errno(RAW(SYS_pread64, fd, b, n, off));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
static u64 err_bytes;
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (fd == 2 && G.on && me) {
    if (S->nlog < MAXLOG) {
      u64 *l = S->log[S->nlog++];
      l[0] = G.steps, l[1] = G.now, l[2] = me->id, l[3] = err_bytes;
      for (int i = 0; i < 8 && i < nth; i++) l[4 + i] = T[i].taken;
    }
    long r = RAW(SYS_write, fd, b, n);
    if (r > 0) err_bytes += r;
    return ret_errno(r);
  }
  if (is_disk_fd(fd)) {
    int e = io_fault(3, &n);
    if (e > 0) {
      errno = e;
      return -1;
    }
    long r = RAW(SYS_write, fd, b, n);
    if (r > 0) G.disk_used += r;
    return ret_errno(r);
  }
  return ret_errno(RAW(SYS_write, fd, b, n));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  if (is_disk_fd(fd)) {
    int e = io_fault(3, &n);
    if (e > 0) {
      errno = e;
      return -1;
    }
    long r = RAW(SYS_pwrite64, fd, b, n, off);
    if (r > 0) G.disk_used += r;
    return ret_errno(r);
  }
  return ret_errno(RAW(SYS_pwrite64, fd, b, n, off));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (is_disk_fd(fd)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return ret_errno(RAW(SYS_readv, fd, v, c));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (is_disk_fd(fd)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return ret_errno(RAW(SYS_writev, fd, v, c));
}
EXPORT ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (is_disk_fd(a) || is_disk_fd(b)) {
    errno = ENOSYS;
    return -1;
  }
  return ret_errno(RAW(SYS_copy_file_range, a, x, b, y, n, f));
}
EXPORT ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
  if (is_disk_fd(a) || is_disk_fd(b)) {
    errno = ENOSYS;
    return -1;
  }
  return ret_errno(RAW(SYS_sendfile, a, b, x, n));
}
EXPORT ssize_t sendfile(int a, int b, off_t *x, size_t n) { return sendfile64(a, b, x, n); }
EXPORT int close(int fd) {
  if (is_disk_fd(fd)) {
    int e = io_fault(6, 0);
    FD[fd].disk = 0;
    long r = RAW(SYS_close, fd);
    if (e > 0) {
      errno = e;
      return -1;
    }
    return ret_errno(r);
  }
  return ret_errno(RAW(SYS_close, fd));
}
static int do_fsync(int fd, long nr) {
  if (is_disk_fd(fd)) {
    int e = io_fault(4, 0);
    if (e > 0) {
      errno = e;
      return -1;
    }
    int o = FD[fd].obj;
    meta_synced = nmeta;
    if (o >= 0) {
      for (int i = 0; i < npent; i++)
        if (P[i].cur == o) {
          size_t len;
          u8 *d = slurp(P[i].name, &len);
          if (d) {
            O[o].dur = d;
            O[o].durlen = len;
            O[o].synced_once = 1;
          }
          break;
        }
    }
    return 0;
  }
  return ret_errno(RAW(nr, fd));
}
EXPORT int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
EXPORT int ftruncate64(int fd, off64_t n) {
  if (is_disk_fd(fd)) {
    int e = io_fault(7, 0);
    if (e > 0) {
      errno = e;
      return -1;
    }
    if (FD[fd].obj >= 0)
      for (int i = 0; i < npent; i++)
        if (P[i].cur == FD[fd].obj) add_meta(2, i, 0, FD[fd].obj);
  }
  return ret_errno(RAW(SYS_ftruncate, fd, n));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_rename(const char *a, const char *b, unsigned fl) {
  const char *ra = disk_rel(a), *rb = disk_rel(b);
  if (G.on && me && ra && rb) {
    int e = io_fault(5, 0);
    if (e > 0) {
      errno = e;
      return -1;
    }
    int pa = pent_of(ra), pb = pent_of(rb);
    long r = RAW(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, fl);
    if (!r) {
      add_meta(4, pa, pb, P[pa].cur);
      P[pb].cur = P[pa].cur;
      P[pa].cur = -1;
    }
    return ret_errno(r);
  }
  return ret_errno(RAW(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, fl));
}
EXPORT int rename(const char *a, const char *b) { return do_rename(a, b, 0); }
EXPORT int renameat(int x, const char *a, int y, const char *b) {
  if (x == AT_FDCWD && y == AT_FDCWD) return do_rename(a, b, 0);
  return ret_errno(RAW(SYS_renameat, x, a, y, b));
}
EXPORT int unlink(const char *a) {
  const char *ra = disk_rel(a);
  if (G.on && me && ra) {
    int e = io_fault(5, 0);
    if (e > 0) {
      errno = e;
      return -1;
    }
    int pa = pent_of(ra);
    long r = RAW(SYS_unlink, a);
    if (!r) {
      add_meta(3, pa, 0, -1);
      P[pa].cur = -1;
    }
    return ret_errno(r);
  }
  return ret_errno(RAW(SYS_unlink, a));
}
EXPORT int unlinkat(int d, const char *a, int fl) {
  if (d == AT_FDCWD && !fl) return unlink(a);
  return ret_errno(RAW(SYS_unlinkat, d, a, fl));
}
static void put_file(const char *name, const u8 *d, size_t n) {
  long fd = RAW(SYS_openat, AT_FDCWD, name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < n) {
    long r = RAW(SYS_write, fd, d + o, n - o);
    if (r <= 0) break;
    o += r;
  }
  RAW(SYS_close, fd);
}
// Put the directory in a state that a power loss now could leave behind:
// metadata operations persist in order up to some point; data that was never
// synced persists page by page or not at all.
static void powerloss(void) {
  u64 rp = mix(G.seed ^ 0x90c3);
  int L = nmeta > meta_synced ? meta_synced + rnd(&rp) % (nmeta - meta_synced + 1) : nmeta;
  if (L < nmeta) S->cnt[F_LOST_META]++;
  static int ns[MAXOBJ];
  static u8 *cur[MAXOBJ];
  static size_t curlen[MAXOBJ];
  static int trunc[MAXOBJ];
  for (int i = 0; i < npent; i++) ns[i] = P[i].dur;
  // what each object holds in the page cache now
  for (int o = 0; o < nobj; o++) {
    cur[o] = 0;
    trunc[o] = O[o].synced_once ? 0 : 1;
  }
  for (int i = 0; i < npent; i++)
    if (P[i].cur >= 0) cur[P[i].cur] = slurp(P[i].name, &curlen[P[i].cur]);
  for (int i = 0; i < L; i++) {
    struct meta *m = &M[i];
    if (m->type == 1) ns[m->a] = m->obj;
    if (m->type == 2 && m->obj >= 0 && i >= meta_synced) trunc[m->obj] = 1;
    if (m->type == 3) ns[m->a] = -1;
    if (m->type == 4) {
      ns[m->b] = ns[m->a];
      ns[m->a] = -1;
    }
  }
  // a truncation that happened but did not become durable: the journal orders
  // the new data after it, so the object keeps its old content
  static int keep_old[MAXOBJ];
  for (int o = 0; o < nobj; o++) keep_old[o] = 0;
  for (int i = L; i < nmeta; i++)
    if (M[i].type == 2 && M[i].obj >= 0 && !trunc[M[i].obj]) keep_old[M[i].obj] = 1;
  static u8 *img[MAXOBJ];
  static size_t imglen[MAXOBJ];
  for (int o = 0; o < nobj; o++) {
    img[o] = O[o].dur;
    imglen[o] = O[o].durlen;
    if (!cur[o] || keep_old[o]) continue;
    if (curlen[o] == O[o].durlen && O[o].dur && !memcmp(cur[o], O[o].dur, curlen[o])) continue;
    size_t n = curlen[o];
    u64 how = rnd(&rp) % 4;
    size_t page = (rnd(&rp) & 1) ? 512 : 4096;
    if (how == 0 && trunc[o]) {
      img[o] = 0;
      imglen[o] = 0;
      continue;
    }
    if (!trunc[o] && how == 0) continue;  // nothing of it reached the disk
    u8 *d = __libc_malloc(n + 1 + (trunc[o] ? 0 : O[o].durlen));
    memset(d, 0, n + 1);
    if (how == 1) n = n ? (rnd(&rp) % (n + 1)) : 0;
    if (how == 1 && (rnd(&rp) & 1)) n -= n % page;
    for (size_t a = 0; a < n; a += page) {
      size_t k = n - a < page ? n - a : page;
      if (how == 2 && (rnd(&rp) & 1)) {
        S->cnt[F_LOST_PAGE]++;
        // lost: zeroes where the file was truncated first, old bytes where not
        if (!trunc[o] && a < O[o].durlen) memcpy(d + a, O[o].dur + a, O[o].durlen - a < k ? O[o].durlen - a : k);
        continue;
      }
      memcpy(d + a, cur[o] + a, k);
    }
    if (!trunc[o] && n < O[o].durlen && how == 1) {
      // overwritten in place without truncation: the tail is still the old one
      memcpy(d + n, O[o].dur + n, O[o].durlen - n);
      n = O[o].durlen;
    }
    img[o] = d;
    imglen[o] = n;
  }
  for (int i = 0; i < npent; i++) {
    if (ns[i] >= 0)
      put_file(P[i].name, img[ns[i]], imglen[ns[i]]);
    else if (P[i].cur >= 0)
      RAW(SYS_unlink, P[i].name);
  }
}

// ------------------------------------------------------------ tsan hooks
#define TS(BITS, TYPE)                                                                                              \
  EXPORT TYPE __tsan_atomic##BITS##_load(const volatile TYPE *p, int mo) {                                          \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                 \
  EXPORT void __tsan_atomic##BITS##_store(volatile TYPE *p, TYPE v, int mo) {                                       \
    sp(C_ATOMIC, 16);                                                                                               \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_exchange(volatile TYPE *p, TYPE v, int mo) {                                    \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE *p, TYPE v, int mo) {                                   \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE *p, TYPE v, int mo) {                                   \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE *p, TYPE v, int mo) {                                   \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE *p, TYPE v, int mo) {                                    \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE *p, TYPE v, int mo) {                                   \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE *p, TYPE v, int mo) {                                  \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                 \
  EXPORT TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE *p, TYPE c, TYPE v, int mo, int fmo) {       \
    sp(C_ATOMIC, 16);                                                                                               \
    __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                   \
    return c;                                                                                                       \
  }                                                                                                                 \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE *p, TYPE *c, TYPE v, int mo, int fmo) {    \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                             \
  }                                                                                                                 \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE *p, TYPE *c, TYPE v, int mo, int fmo) {      \
    sp(C_ATOMIC, 16);                                                                                               \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                             \
  }
TS(8, u8)
TS(16, uint16_t)
TS(32, u32)
TS(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  sp(C_ATOMIC, 16);
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
EXPORT void __tsan_atomic_signal_fence(int mo) {}
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}

// ------------------------------------------------------------ start
static u64 cfg_u(const char *cfg, const char *k, u64 def) {
  size_t n = strlen(k);
  for (const char *p = cfg; p && *p;) {
    if (!strncmp(p, k, n) && p[n] == '=') return strtoull(p + n + 1, 0, 0);
    p = strchr(p, ',');
    if (p) p++;
  }
  return def;
}
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  // the first entry is the executable
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      uintptr_t b = a + i->dlpi_phdr[k].p_memsz;
      if (!exe_lo || a < exe_lo) exe_lo = a;
      if (b > exe_hi) exe_hi = b;
    }
  return 1;
}
__attribute__((constructor)) static void start(void) {
  S = &S_dummy_hdr;
  char *cfg = getenv("SIM"), *shm = getenv("SIM_SHM"), *scr = getenv("SIM_SCRIPT");
  if (!cfg || !shm) return;
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  resolve_locks();
  long fd = RAW(SYS_openat, AT_FDCWD, shm, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
  if (fd < 0) RAW(SYS_exit_group, 95);
  RAW(SYS_ftruncate, fd, 0);
  if (RAW(SYS_ftruncate, fd, sizeof(struct shm)) < 0) RAW(SYS_exit_group, 95);
  void *m = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  RAW(SYS_close, fd);
  if (m == MAP_FAILED) RAW(SYS_exit_group, 95);
  S = m;
  S->magic = 0x51a151a1;
  G.seed = cfg_u(cfg, "seed", 1);
  S->seed = G.seed;
  G.mode = cfg_u(cfg, "mode", 1);
  G.mean = cfg_u(cfg, "mean", 50);
  if (!G.mean) G.mean = 1;
  G.ncpu = cfg_u(cfg, "ncpu", 4);
  G.budget = cfg_u(cfg, "budget", 20000000);
  G.tick = cfg_u(cfg, "tick", 1000);
  G.malloc_w = cfg_u(cfg, "mw", 1);
  G.p_spur = cfg_u(cfg, "spur", 0);
  G.p_futexintr = cfg_u(cfg, "fintr", 0);
  G.p_stall = cfg_u(cfg, "stall", 0);
  G.p_eintr = cfg_u(cfg, "eintr", 0);
  G.p_sread = cfg_u(cfg, "sread", 0);
  G.p_swrite = cfg_u(cfg, "swrite", 0);
  G.p_eior = cfg_u(cfg, "eior", 0);
  G.p_eiow = cfg_u(cfg, "eiow", 0);
  G.p_open = cfg_u(cfg, "open", 0);
  G.p_fsync = cfg_u(cfg, "fsync", 0);
  G.p_rename = cfg_u(cfg, "rename", 0);
  G.p_close = cfg_u(cfg, "close", 0);
  G.disk_cap = cfg_u(cfg, "cap", ~0ull);
  G.malloc_fail = cfg_u(cfg, "mfail", 0);
  G.malloc_fail_n = cfg_u(cfg, "mfailn", 1);
  G.malloc_size = cfg_u(cfg, "msize", 0);
  G.malloc_site = cfg_u(cfg, "msite", 0);
  G.malloc_occ = cfg_u(cfg, "mocc", 1);
  G.mem_cap = cfg_u(cfg, "memcap", 1600ull << 20);
  G.thread_fail = cfg_u(cfg, "tfail", 0);
  G.crash_step = cfg_u(cfg, "crash", 0);
  G.crash_io = cfg_u(cfg, "crashio", 0);
  G.crash_power = cfg_u(cfg, "power", 0);
  G.jump_step = cfg_u(cfg, "jump", 0);
  G.jump_ns = cfg_u(cfg, "jumpns", 0);
  G.wall_step = cfg_u(cfg, "wstep", 0);
  G.wall_ns = cfg_u(cfg, "wns", 0);
  G.wall_back = cfg_u(cfg, "wback", 0);
  G.io_arm = cfg_u(cfg, "ioarm", 0);
  G.rs = mix(G.seed ^ 0x5c4ed);
  G.rf = mix(G.seed ^ 0xfa017);
  G.rt_base = 1700000000000000000ull + (mix(G.seed) % 1000000000ull) * 100000000ull;
  G.lowprio = 900000;
  G.pct = G.mode == 2;
  if (G.mode == 2) {
    u64 k = cfg_u(cfg, "pctk", 5000);
    G.nchg = cfg_u(cfg, "pctd", 3);
    if (G.nchg > 16) G.nchg = 16;
    for (int i = 0; i < G.nchg; i++) G.chg[i] = 1 + rnd(&G.rs) % k;
    for (int i = 0; i < G.nchg; i++)
      for (int j = i + 1; j < G.nchg; j++)
        if (G.chg[j] < G.chg[i]) {
          u64 t = G.chg[i];
          G.chg[i] = G.chg[j];
          G.chg[j] = t;
        }
  }
  draw_credit();
  if (scr && *scr) {
    G.scripted = 1;
    if (G.mode == 2) G.mode = 1;
    // at an address of its own, so that the heap and the stacks lie where they
    // lay when the script was recorded; it comes sorted
    fd = RAW(SYS_openat, AT_FDCWD, scr, O_RDONLY | O_CLOEXEC, 0);
    struct stat st;
    if (fd < 0 || RAW(SYS_fstat, fd, &st) < 0) RAW(SYS_exit_group, 95);
    nscript = st.st_size / sizeof(struct dec);
    if (nscript) {
      m = mmap((void *)0x200000000000, st.st_size, PROT_READ, MAP_PRIVATE | MAP_FIXED_NOREPLACE, fd, 0);
      if (m == MAP_FAILED) RAW(SYS_exit_group, 95);
      script = m;
    }
    RAW(SYS_close, fd);
    for (u64 i = 0; i < nscript; i++) {
      if (script[i].kind == K_CRASH && script[i].key < 1000000000000ull) {
        G.crash_step = script[i].key;
        G.crash_power = script[i].b;
      }
      if (script[i].kind == K_JUMP) {
        G.jump_step = script[i].key;
        G.jump_ns = script[i].b;
      }
    }
  }
  dl_iterate_phdr(phdr_cb, 0);
  if (RAW(SYS_getcwd, cwd0, sizeof cwd0) < 0) cwd0[0] = 0;
  cwd0len = strlen(cwd0);
  pthread_key_create(&key, thread_done);
  T[0].state = T_RUN;
  T[0].prio = 1000000 + rnd(&G.rs) % 1000000;
  T[0].pt = pthread_self();
  nth = 1;
  me = &T[0];
  S->max_live = 1;
  unsetenv("LD_PRELOAD");
  set_next_ev();
  G.on = 1;
}
__attribute__((destructor)) static void stop(void) {
  if (!G.on) return;
  S->outcome = O_EXIT;
  sync_shm();
}
