// LD_PRELOAD shim: puts every source of nondeterminism of a real cargo-mutants process
// (threads, futexes, clocks, randomness, file I/O, child processes, signals) behind the
// simulator's seeded scheduler.  With SIM_SHM unset it does nothing.
#include "sim.h"
#include <dlfcn.h>
#include <sys/auxv.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <spawn.h>

#define EXPORT __attribute__((visibility("default")))
#define NFD 4096

static struct shm *S;
static int PI = -1;               // process index
static int sockfd = -1;
static volatile int stub_child;   // in the forked child, before exec
static __thread int me = -1;      // task index of this thread
static __thread int ended;
static u8 fdclass[NFD];
static u8 fdpipe[NFD];            // 0 unknown 1 pipe/socket 2 not
static u64 rnd_state;
static char cwd0[512];

#define ON (S && me >= 0 && !stub_child && !ended)

static void *real(const char *n) {
  void *p = dlsym(RTLD_NEXT, n);
  if (!p) { dprintf(2, "sim shim: no real %s\n", n); _exit(97); }
  return p;
}
#define REAL(ret, name, args) static ret (*r_##name) args; if (!r_##name) r_##name = real(#name);

static void die_unsupported(const char *what) {
  if (S) sim_trace(S, "UNSUPPORTED %s", what);
  dprintf(2, "sim shim: unsupported call %s\n", what);
  syscall(SYS_exit_group, 98);
}

static const char *np(const char *p) { // normalise a path for the trace
  static __thread char b[2][1024];
  static __thread int k;
  k ^= 1;
  if (!strncmp(p, S->root, S->rootlen) && (p[S->rootlen] == '/' || !p[S->rootlen]))
    snprintf(b[k], sizeof b[k], "@%s", p + S->rootlen);
  else snprintf(b[k], sizeof b[k], "%s", p);
  for (char *c = b[k]; *c; c++) if (*c == ' ' || *c == '\n') *c = '?';
  return b[k];
}

static const char *abspath_at(int dirfd, const char *p, char *buf, size_t n) {
  if (p && p[0] == '/') { snprintf(buf, n, "%s", p); return buf; }
  char d[600];
  if (dirfd == AT_FDCWD) snprintf(d, sizeof d, "%s", cwd0);
  else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    long k = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1);
    d[k > 0 ? k : 0] = 0;
  }
  if (!p || !*p) snprintf(buf, n, "%s", d);
  else if (p[0] == '.' && p[1] == '/') snprintf(buf, n, "%s/%s", d, p + 2);
  else if (p[0] == '.' && !p[1]) snprintf(buf, n, "%s", d);
  else snprintf(buf, n, "%s/%s", d, p);
  return buf;
}

static int classify(const char *p) {
  if (strncmp(p, S->root, S->rootlen) || p[S->rootlen] != '/') return CL_OTHER;
  if (strstr(p, "/mutants.out")) { // with the kinds of files in it told apart
    const char *d = strrchr(p, '.');
    if (!d) return CL_OUT;
    if (!strcmp(d, ".txt")) return CL_LIST;
    if (!strcmp(d, ".json")) return strstr(p, "/lock.json") ? CL_OUT : CL_JSON;
    if (!strcmp(d, ".log")) return strstr(p, "/debug.log") ? CL_DBG : CL_LOG;
    if (!strcmp(d, ".diff")) return CL_LOG;
    return CL_OUT;
  }
  const char *q = p + S->rootlen;
  if (!strncmp(q, "/tmp", 4)) return CL_TMP;
  return CL_SRC;
}

// ---------------------------------------------------------------- scheduling core
static void deliver(void) {
  struct proc *P = &S->p[PI];
  while (P->pending) {
    int sig = __builtin_ctz(P->pending);
    P->pending &= ~(1u << sig);
    u64 h = sig == SIGINT ? P->h_int : sig == SIGTERM ? P->h_term : sig == SIGHUP ? P->h_hup : 0;
    sim_trace(S, "SIGDELIVER %d sig=%d %s", PI, sig, sig == 9 || h == 0 ? "fatal" : h == 1 ? "ignored" : "handler");
    if (sig == SIGKILL || h == 0) {
      syscall(SYS_kill, syscall(SYS_getpid), sig);
      for (;;) syscall(SYS_pause);
    }
    if (h == 1) continue;
    P->nsig++;
    int e = errno;
    ((void (*)(int, void *, void *))h)(sig, NULL, NULL);
    errno = e;
  }
}

static void switch_away(void) { // current task is not RUN any more (or wants to give way)
  int c = sched_pick(S, me, 1);
  if (c != me) {
    S->switches++;
    S->il_hash = mix(S->il_hash, (u64)c * 31 + S->t[me].blk);
    give(S, c);
    take(S, me);
  }
  S->t[me].state = T_RUN;
  S->cur = me;
}

static void check_limits(void) {
  if (S->points > S->max_points || S->now > S->max_vtime || S->trace_len > TRACE_CAP / 4) {
    S->limit = S->now > S->max_vtime ? 2 : 3;
    give(S, 0);
    for (;;) { take(S, me); }
  }
}

static void block(int kind, u64 key, u64 wake) {
  S->t[me].state = T_BLOCK;
  S->t[me].blk = kind;
  S->t[me].key = key;
  S->t[me].wake = wake;
  S->t[me].woken = 0;
  S->points++;
  check_limits();
  switch_away();
  S->t[me].blk = B_NONE;
  S->t[me].wake = INF;
}

static void sim_sleep(u64 ns) {
  u64 until = S->now + ns;
  if (until < S->now) until = INF - 1;
  do { block(B_SLEEP, 0, until); deliver(); } while (S->now < until);
}

static void maybe_switch(void) {
  int want;
  if (S->explicit_sched)
    want = S->sw_pos < S->nsw && S->sw[S->sw_pos].point <= S->points;
  else want = rng_below(&S->rng_sched, 10000) < S->p_switch || S->now > S->fair_at;
  if (want) { S->t[me].state = T_RUN; S->t[me].blk = B_NONE; switch_away(); }
}

static u64 new_quantum(void) {
  u64 m = S->edge_mean;
  if (rng_below(&S->rng_sched, 100) < S->edge_burst) m = 8;
  return 1 + rng_below(&S->rng_sched, 2 * m);
}

static void check_op_signals(int op, int cl, const char *path) {
  for (int i = 0; i < S->nfault; i++) {
    struct fault *f = &S->fault[i];
    if (f->trig != TR_NTH || f->kind == F_ERRNO || f->fired) continue;
    if (f->proc >= 0 && f->proc != PI) continue;
    if (!(f->opmask >> op & 1) || !(f->clmask >> cl & 1)) continue;
    if (f->substr[0] && (!path || !strstr(path, f->substr))) continue;
    if (++f->seen != f->nth) continue;
    f->fired = 1;
    S->nfired++;
    sim_trace(S, "FAULT %d kind=%d proc=%d op=%d path=%s val=%d", i, f->kind, PI, op, path ? np(path) : "-", f->err);
    if (f->kind == F_SIGNAL) S->p[PI].pending |= 1u << f->err;
    else if (f->kind == F_RTJUMP) S->rt_off += f->amount;
    else if (f->kind == F_STALL) { S->nstall++; S->stall_ns += f->amount; sim_sleep(f->amount); }
  }
}

// A yield point.  Called with the baton, before the operation `op`.
static void yield_(int op, int cl, const char *path) {
  int e = errno;
  S->yields++;
  S->points++;
  S->opcount[op]++;
  S->p[PI].ops++;
  S->hash = mix(S->hash, ((u64)me << 8) | op);
  if (S->op_cost_max) S->now += rng_below(&S->rng_misc, S->op_cost_max);
  check_limits();
  check_op_signals(op, cl, path);
  if (S->p_stall && rng_below(&S->rng_misc, 1000000) < S->p_stall) {
    S->nstall++;
    u64 d = rng_below(&S->rng_misc, S->stall_max);
    S->stall_ns += d;
    sim_sleep(d);
  }
  maybe_switch();
  deliver();
  errno = e;
}
#define YIELD(op) do { if (ON) yield_(op, CL_OTHER, NULL); } while (0)

static int inject(int op, int cl, const char *path) {
  for (int i = 0; i < S->nfault; i++) {
    struct fault *f = &S->fault[i];
    if (f->kind != F_ERRNO || (f->trig != TR_NTH && f->trig != TR_SIG)) continue;
    if (f->proc >= 0 && f->proc != PI) continue;
    if (!(f->opmask >> op & 1) || !(f->clmask >> cl & 1)) continue;
    if (cl == CL_STD && f->clmask == ~0u) continue; // the console fails only if it is asked to
    if (f->substr[0] && (!path || !strstr(path, f->substr))) continue;
    if (f->trig == TR_SIG && !S->p[PI].nsig) continue; // from the first handled signal on
    f->seen++;
    int fire = 0;
    if (f->seen == f->nth) { fire = 1; f->left = f->persist; }
    else if (f->fired && f->left) { fire = 1; f->left--; }
    if (fire) {
      if (f->fired < 400)
        sim_trace(S, "FAULT %d kind=1 proc=%d op=%d path=%s val=%d", i, PI, op, path ? np(path) : "-", f->err);
      f->fired++;
      S->nfired++;
      return f->err;
    }
  }
  return 0;
}

// ---------------------------------------------------------------- init, threads
static void task_exit(void *unused) {
  (void)unused;
  if (!S || me < 0 || ended) return;
  S->t[me].state = T_DEAD;
  S->p[PI].live--;
  sim_trace(S, "THREADEND %d task=%d", PI, me);
  for (int i = 0; i < S->ntask; i++)
    if (S->t[i].state == T_BLOCK && S->t[i].blk == B_JOIN && S->t[i].key == (u64)me) S->t[i].state = T_RUN;
  ended = 1;
  S->points++;
  int c = sched_pick(S, -1, 1);
  S->switches++;
  give(S, c);
}

__attribute__((constructor)) static void init(void) {
  const char *path = getenv("SIM_SHM");
  if (!path) return;
  int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDWR | O_CLOEXEC);
  if (fd < 0) { dprintf(2, "sim shim: cannot open %s\n", path); _exit(97); }
  struct shm *p = mmap(NULL, sizeof *p, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p == MAP_FAILED || p->magic != 0x51A1C0DE) { dprintf(2, "sim shim: bad shm\n"); _exit(97); }
  PI = atoi(getenv("SIM_PROC"));
  sockfd = atoi(getenv("SIM_SOCK"));
  unsetenv("SIM_SHM"); unsetenv("SIM_PROC"); unsetenv("SIM_SOCK"); unsetenv("LD_PRELOAD");
  if (!getcwd(cwd0, sizeof cwd0)) cwd0[0] = 0;
  rnd_state = mix(p->seed_misc, 77 + PI);
  S = p;
  fdclass[1] = fdclass[2] = CL_STD;
  me = S->p[PI].main_task;
  take(S, me);
  S->cur = me;
}

struct tramp { void *(*fn)(void *); void *arg; int task; };
extern int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
extern void *__dso_handle;
static void *trampoline(void *a) {
  struct tramp t = *(struct tramp *)a;
  free(a);
  me = t.task;
  take(S, me);
  S->cur = me;
  __cxa_thread_atexit_impl(task_exit, NULL, &__dso_handle);
  return t.fn(t.arg);
}

EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
  if (!ON) return r_pthread_create(th, at, fn, arg);
  yield_(OP_THREAD, CL_OTHER, NULL);
  int e = inject(OP_THREAD, CL_OTHER, NULL);
  if (e) return e;
  int k = -1;
  for (int i = 1; i < S->ntask; i++) if (S->t[i].state == T_FREE) { k = i; break; }
  if (k < 0) { if (S->ntask >= MAXT) die_unsupported("too many threads"); k = S->ntask++; }
  memset(&S->t[k], 0, sizeof S->t[k]);
  S->t[k].state = T_RUN;
  S->t[k].proc = PI;
  S->t[k].wake = INF;
  struct tramp *t = malloc(sizeof *t);
  t->fn = fn; t->arg = arg; t->task = k;
  int r = r_pthread_create(th, at, trampoline, t);
  if (r) die_unsupported("real pthread_create failed");
  S->t[k].pth = (u64)*th;
  S->p[PI].live++;
  sim_trace(S, "THREAD %d task=%d", PI, k);
  return 0;
}

EXPORT int pthread_join(pthread_t th, void **ret) {
  REAL(int, pthread_join, (pthread_t, void **));
  if (!ON) return r_pthread_join(th, ret);
  yield_(OP_JOIN, CL_OTHER, NULL);
  int k = -1;
  for (int i = 1; i < S->ntask; i++) if (S->t[i].proc == PI && S->t[i].pth == (u64)th && S->t[i].state != T_FREE) k = i;
  if (k < 0) return ESRCH;
  while (S->t[k].state != T_DEAD) { block(B_JOIN, k, INF); deliver(); }
  S->t[k].state = T_FREE;
  S->t[k].pth = 0;
  return r_pthread_join(th, ret);
}

// ---------------------------------------------------------------- edge coverage = preemption points
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
  static u32 n;
  if (a == b || *a) return;
  for (u32 *p = a; p < b; p++) *p = ++n;
}
static int in_sync(u64 pc) {
  static u64 base;
  if (!base) base = getauxval(AT_PHDR) & ~0xfffull;
  u64 a = pc - base;
  u32 lo = 0, hi = S->nsync;
  while (lo < hi) {
    u32 m = (lo + hi) / 2;
    if (S->sync[2 * m + 1] <= a) lo = m + 1; else hi = m;
  }
  return lo < S->nsync && S->sync[2 * lo] <= a;
}
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (!ON) return;
  u32 id = *g;
  if (id < COV_CAP && !S->cov[id]) S->cov[id] = 1 | (in_sync((u64)__builtin_return_address(0)) ? 2 : 0);
  S->edges++;
  S->points++;
  if (S->p_estall && id < COV_CAP && S->p[PI].live > 2 && S->fresh[id] < 250) {
    u32 nf = ++S->fresh[id];
    if (rng_below(&S->rng_misc, 10000u * (nf < 12 ? 12 : nf)) < 12 * S->p_estall) {
      int e = errno;
      u64 d = 1 + rng_below(&S->rng_misc, S->estall_max);
      S->nstall++;
      S->stall_ns += d;
      sim_sleep(d);
      errno = e;
    }
  }
  if (S->p_sstall && id < COV_CAP && (S->cov[id] & 2) && S->p[PI].live > 2 && rng_below(&S->rng_misc, 10000) < S->p_sstall) {
    int e = errno;
    u64 d = S->estall_max / 2 + rng_below(&S->rng_misc, S->estall_max / 2);
    S->nstall++;
    S->stall_ns += d;
    sim_sleep(d);
    errno = e;
  }
  if (S->explicit_sched) {
    if (S->sw_pos < S->nsw && S->sw[S->sw_pos].point <= S->points) {
      int e = errno;
      S->t[me].state = T_RUN;
      switch_away();
      deliver();
      errno = e;
    }
    if ((S->edges & 0xfff) == 0) check_limits();
    return;
  }
  if (S->edge_mean == 0) { if ((S->edges & 0xfff) == 0) check_limits(); return; }
  if (S->edge_left-- > 1) return;
  S->edge_left = new_quantum();
  int e = errno;
  check_limits();
  S->preempts++;
  S->t[me].state = T_RUN;
  switch_away();
  deliver();
  errno = e;
}

// ---------------------------------------------------------------- futex / syscall
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, int has_abs) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    yield_(OP_FUTEX, CL_OTHER, NULL);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    u64 until = INF;
    if (ts) {
      u64 t = (u64)ts->tv_sec * SEC + ts->tv_nsec;
      if (cmd == FUTEX_WAIT_BITSET || has_abs) until = (op & FUTEX_CLOCK_REALTIME) ? t - S->rt_off : t;
      else until = S->now + t;
    }
    if (S->p_spurious && rng_below(&S->rng_misc, 10000) < S->p_spurious) { S->nspur++; return 0; }
    if (until <= S->now) { errno = ETIMEDOUT; return -1; }
    for (;;) {
      block(B_FUTEX, (u64)addr, until);
      deliver();
      if (S->t[me].woken) return 0;
      if (S->now >= until) { errno = ETIMEDOUT; return -1; }
      // woken for a signal: behave like a spurious return (EINTR)
      errno = EINTR;
      return -1;
    }
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    yield_(OP_FUTEX, CL_OTHER, NULL);
    long n = 0;
    int cand[MAXT], k = 0;
    for (int i = 1; i < S->ntask; i++)
      if (S->t[i].proc == PI && S->t[i].state == T_BLOCK && S->t[i].blk == B_FUTEX && S->t[i].key == (u64)addr) cand[k++] = i;
    while (k && n < (long)(int)val) {
      int j = k > 1 ? rng_below(&S->rng_misc, k) : 0;
      S->t[cand[j]].state = T_RUN;
      S->t[cand[j]].woken = 1;
      cand[j] = cand[--k];
      n++;
    }
    return n;
  }
  die_unsupported("futex op");
  return -1;
}

static void fill_random(void *buf, size_t n) {
  u8 *b = buf;
  for (size_t i = 0; i < n; i += 8) {
    u64 v = rng_next(&rnd_state);
    memcpy(b + i, &v, n - i < 8 ? n - i : 8);
  }
}

EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (ON) {
    if (nr == SYS_futex) return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, 0);
    if (nr == SYS_getrandom) { fill_random((void *)a, b); return b; }
    if (nr == SYS_gettid) return 5000 + me;
  }
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "0"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (ON) { fill_random(b, n); return n; }
  return syscall(SYS_getrandom, b, n, fl);
}
EXPORT int getentropy(void *b, size_t n) {
  if (ON) { fill_random(b, n); return 0; }
  return syscall(SYS_getrandom, b, n, 0) < 0 ? -1 : 0;
}

EXPORT int sched_yield(void) {
  if (!ON) return syscall(SYS_sched_yield);
  S->points++;
  S->t[me].state = T_RUN;
  switch_away();
  return 0;
}

// ---------------------------------------------------------------- clocks
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!ON) return syscall(SYS_clock_gettime, c, ts);
  yield_(OP_CLOCK, CL_OTHER, NULL);
  u64 t = S->now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) t += S->rt_off;
  ts->tv_sec = t / SEC;
  ts->tv_nsec = t % SEC;
  return 0;
}
EXPORT time_t time(time_t *p) {
  time_t t;
  if (ON) t = (S->now + S->rt_off) / SEC;
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  if (p) *p = t;
  return t;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *req, struct timespec *rem) {
  if (!ON) { long r = syscall(SYS_clock_nanosleep, c, fl, req, rem); return r < 0 ? errno : 0; }
  yield_(OP_SLEEP, CL_OTHER, NULL);
  u64 t = (u64)req->tv_sec * SEC + req->tv_nsec, until;
  if (fl & TIMER_ABSTIME) until = c == CLOCK_REALTIME ? t - S->rt_off : t;
  else until = S->now + t;
  if (until < S->now && !(fl & TIMER_ABSTIME)) until = INF - 1;
  while (S->now < until) {
    block(B_SLEEP, 0, until);
    u32 pend = S->p[PI].pending;
    deliver();
    if (pend && S->now < until) {
      if (rem && !(fl & TIMER_ABSTIME)) { u64 l = until - S->now; rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; }
      return EINTR;
    }
  }
  return 0;
}
EXPORT int nanosleep(const struct timespec *req, struct timespec *rem) {
  int r = clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
  if (r) { errno = r; return -1; }
  return 0;
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
  return nanosleep(&ts, NULL);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts = { s, 0 };
  nanosleep(&ts, NULL);
  return 0;
}
EXPORT int pause(void) {
  if (!ON) return syscall(SYS_pause);
  block(B_SLEEP, 0, INF);
  deliver();
  errno = EINTR;
  return -1;
}

// ---------------------------------------------------------------- identity
EXPORT pid_t getpid(void) { if (ON) return S->p[PI].vpid; return syscall(SYS_getpid); }
EXPORT pid_t gettid(void) { if (ON) return 5000 + me; return syscall(SYS_gettid); }
EXPORT int gethostname(char *b, size_t n) {
  if (ON) { snprintf(b, n, "simhost"); return 0; }
  REAL(int, gethostname, (char *, size_t));
  return r_gethostname(b, n);
}
EXPORT const char *gnu_get_libc_version(void) {
  // Makes Rust's std use fork+exec instead of posix_spawn, so that there is one spawn path.
  if (S) return "2.17";
  REAL(const char *, gnu_get_libc_version, (void));
  return r_gnu_get_libc_version();
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (!ON) { long r = syscall(SYS_sched_getaffinity, p, n, m); return r < 0 ? -1 : 0; }
  memset(m, 0, n);
  for (int i = 0; i < S->ncpus; i++) CPU_SET_S(i, n, m);
  return 0;
}
EXPORT long sysconf(int k) {
  REAL(long, sysconf, (int));
  if (ON && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return S->ncpus;
  return r_sysconf(k);
}

// ---------------------------------------------------------------- signals
EXPORT int sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
  REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *));
  if (ON && a && (sig == SIGINT || sig == SIGTERM || sig == SIGHUP)) {
    yield_(OP_MISC, CL_OTHER, NULL);
    u64 h = a->sa_handler == SIG_DFL ? 0 : a->sa_handler == SIG_IGN ? 1 : (u64)a->sa_sigaction;
    if (sig == SIGINT) S->p[PI].h_int = h;
    if (sig == SIGTERM) S->p[PI].h_term = h;
    if (sig == SIGHUP) S->p[PI].h_hup = h;
    sim_trace(S, "SIGHANDLER %d sig=%d %s", PI, sig, h == 0 ? "dfl" : h == 1 ? "ign" : "fn");
  }
  return r_sigaction(sig, a, old);
}
EXPORT __sighandler_t signal(int sig, __sighandler_t h) {
  struct sigaction a, o;
  memset(&a, 0, sizeof a);
  a.sa_handler = h;
  a.sa_flags = SA_RESTART;
  if (sigaction(sig, &a, &o) < 0) return SIG_ERR;
  return o.sa_handler;
}

// ---------------------------------------------------------------- fd waiting
static void wake_fd_waiters(void) {
  for (int i = 1; i < S->ntask; i++)
    if (S->t[i].proc == PI && S->t[i].state == T_BLOCK && S->t[i].blk == B_FD) S->t[i].state = T_RUN;
}
static int is_pipe(int fd) {
  if (fd < 0 || fd >= NFD) return 0;
  if (fdclass[fd]) return 0;
  if (!fdpipe[fd]) {
    struct stat st;
    if (syscall(SYS_fstat, fd, &st) < 0) return 0;
    fdpipe[fd] = S_ISFIFO(st.st_mode) || S_ISSOCK(st.st_mode) ? 1 : 2;
  }
  return fdpipe[fd] == 1;
}
static long raw_poll1(int fd, short ev) {
  struct pollfd p = { fd, ev, 0 };
  long r = syscall(SYS_poll, &p, 1, 0);
  return r;
}
static void wait_readable(int fd) {
  int fl = syscall(SYS_fcntl, fd, F_GETFL, 0);
  if (fl & O_NONBLOCK) return;
  while (raw_poll1(fd, POLLIN) == 0) { block(B_FD, fd, INF); deliver(); }
}

EXPORT int poll(struct pollfd *p, nfds_t n, int timeout) {
  if (!ON) return syscall(SYS_poll, p, n, timeout);
  yield_(OP_POLL, CL_OTHER, NULL);
  u64 until = timeout < 0 ? INF : S->now + (u64)timeout * MS;
  for (;;) {
    int r = syscall(SYS_poll, p, n, 0);
    if (r || S->now >= until) return r;
    block(B_FD, n ? p[0].fd : 0, until);
    deliver();
  }
}

// ---------------------------------------------------------------- file operations
// The path with its directory part resolved (symlinked directories), for successful operations.
static const char *rp(const char *p, char *buf) {
  REAL(char *, realpath, (const char *, char *));
  char d[1100], r[PATH_MAX];
  snprintf(d, sizeof d, "%s", p);
  size_t n = strlen(d);
  while (n > 1 && d[n - 1] == '/') d[--n] = 0;
  char *q = strrchr(d, '/');
  if (!q || q == d) return p;
  *q++ = 0;
  if (!r_realpath(d, r)) return p;
  snprintf(buf, 1100, "%.900s/%.190s", r, q);
  return buf;
}
static void audit(const char *op, const char *p1, const char *p2, long rc, int fl) {
  int e = rc < 0 ? errno : 0, se = errno;
  char b1[1100], b2[1100];
  if (!e && strcmp(op, "open")) { p1 = rp(p1, b1); if (p2) p2 = rp(p2, b2); }
  errno = se;
  if (p2) sim_trace(S, "FS %d %d %s %s %s rc=%d f=%o", PI, me, op, np(p1), np(p2), e, fl);
  else sim_trace(S, "FS %d %d %s %s - rc=%d f=%o", PI, me, op, np(p1), e, fl);
}
static void set_fd(int fd, int cl) { if (fd >= 0 && fd < NFD) { fdclass[fd] = cl; fdpipe[fd] = 2; } }

static int do_open(int dirfd, const char *path, int fl, mode_t mode) {
  if (!ON) return syscall(SYS_openat, dirfd, path, fl, mode);
  char b[1100];
  abspath_at(dirfd, path, b, sizeof b);
  int cl = classify(b);
  int wr = (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY;
  int op = wr ? OP_OPENW : fl & O_DIRECTORY ? OP_OPENDIR : OP_OPENR;
  yield_(op, cl, b);
  if (!strncmp(b, "/proc/", 6) || !strncmp(b, "/sys/", 5)) { errno = ENOENT; return -1; }
  int e = inject(op, cl, b);
  int r;
  if (!e && (cl == CL_SRC || cl == CL_TMP) && !(fl & (O_NONBLOCK | O_PATH))) { // opening a FIFO that nobody else has open waits for ever
    struct stat st;
    int se = errno;
    if (!syscall(SYS_newfstatat, dirfd, path, &st, fl & O_NOFOLLOW ? AT_SYMLINK_NOFOLLOW : 0) && S_ISFIFO(st.st_mode))
      for (;;) { block(B_SLEEP, 0, INF); deliver(); }
    errno = se;
  }
  if (e) { errno = e; r = -1; }
  else r = syscall(SYS_openat, dirfd, path, fl, mode);
  if (r >= 0) set_fd(r, cl);
  if (wr) {
    char b2[1100];
    int se = errno;
    if (r >= 0) { // what was really opened, behind any symlinks
      char l[64];
      snprintf(l, sizeof l, "/proc/self/fd/%d", r);
      long k = syscall(SYS_readlinkat, AT_FDCWD, l, b2, sizeof b2 - 1);
      b2[k > 0 ? k : 0] = 0;
    } else snprintf(b2, sizeof b2, "%s", b);
    errno = se;
    audit("open", b2, NULL, r, fl);
  }
  return r;
}
#define OPENMODE mode_t mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open64(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl, mode); }
EXPORT int open(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl, mode); }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl, mode); }
EXPORT int openat(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl, mode); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int fcl(int fd) { return fd >= 0 && fd < NFD ? fdclass[fd] : 0; }
static const char *fdpath(int fd, char *b, size_t n) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long k = syscall(SYS_readlinkat, AT_FDCWD, l, b, n - 1);
  b[k > 0 ? k : 0] = 0;
  return b;
}
static size_t shorten(size_t n) {
  if (n > 1 && S->p_short && rng_below(&S->rng_misc, 10000) < S->p_short) {
    S->nshort++;
    return 1 + rng_below(&S->rng_misc, n - 1);
  }
  return n;
}

EXPORT ssize_t read(int fd, void *buf, size_t n) {
  if (!ON) return syscall(SYS_read, fd, buf, n);
  int cl = fcl(fd);
  char b[1100] = "";
  if (cl && S->nfault) fdpath(fd, b, sizeof b);
  yield_(OP_READ, cl, b);
  if (!cl && is_pipe(fd)) { wait_readable(fd); return syscall(SYS_read, fd, buf, n); }
  int e = cl && cl != CL_STD ? inject(OP_READ, cl, b) : 0;
  if (e) { errno = e; return -1; }
  return syscall(SYS_read, fd, buf, cl ? shorten(n) : n);
}
static ssize_t after_write(int fd, ssize_t r) {
  if (r > 0 && is_pipe(fd)) wake_fd_waiters();
  return r;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
  if (!ON) return syscall(SYS_write, fd, buf, n);
  int cl = fcl(fd);
  char b[1100] = "";
  if (cl && S->nfault) fdpath(fd, b, sizeof b);
  yield_(OP_WRITE, cl, b);
  int e = cl ? inject(OP_WRITE, cl, b) : 0;
  if (e) { errno = e; return -1; }
  return after_write(fd, syscall(SYS_write, fd, buf, cl && cl != CL_STD ? shorten(n) : n));
}
// A terminal, as far as the program asks.
EXPORT int isatty(int fd) {
  REAL(int, isatty, (int));
  if (ON && fcl(fd) == CL_STD) return S->tty >> (fd - 1) & 1;
  return r_isatty(fd);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *a = va_arg(ap, void *);
  va_end(ap);
  if (ON && req == TIOCGWINSZ && fcl(fd) == CL_STD && S->tty >> (fd - 1) & 1) {
    struct winsize *w = a;
    w->ws_row = 24; w->ws_col = 80; w->ws_xpixel = w->ws_ypixel = 0;
    return 0;
  }
  return syscall(SYS_ioctl, fd, req, a);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!ON) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  if (!ON) return syscall(SYS_pwrite64, fd, buf, n, o);
  int cl = fcl(fd);
  char b[1100] = "";
  if (cl && S->nfault) fdpath(fd, b, sizeof b);
  yield_(OP_WRITE, cl, b);
  int e = inject(OP_WRITE, cl, b);
  if (e) { errno = e; return -1; }
  return syscall(SYS_pwrite64, fd, buf, shorten(n), o);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
  if (!ON) return syscall(SYS_pread64, fd, buf, n, o);
  yield_(OP_READ, fcl(fd), NULL);
  return syscall(SYS_pread64, fd, buf, n, o);
}
EXPORT int close(int fd) {
  if (!ON) return syscall(SYS_close, fd);
  yield_(OP_CLOSE, fcl(fd), NULL);
  int p = is_pipe(fd);
  if (fd >= 0 && fd < NFD) { fdclass[fd] = 0; fdpipe[fd] = 0; }
  int r = syscall(SYS_close, fd);
  if (p) wake_fd_waiters();
  return r;
}
EXPORT int dup(int fd) {
  int r = syscall(SYS_dup, fd);
  if (ON && r >= 0 && r < NFD) { fdclass[r] = fcl(fd); fdpipe[r] = 0; }
  return r;
}
EXPORT int dup2(int a, int b) {
  int r = syscall(SYS_dup2, a, b);
  if (ON && r >= 0 && r < NFD) { fdclass[r] = fcl(a); fdpipe[r] = 0; }
  return r;
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (ON && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if (r >= 0 && r < NFD) { fdclass[r] = fcl(fd); fdpipe[r] = 0; }
    return r;
  }
  if (ON && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
    for (;;) {
      yield_(OP_FLOCK, fcl(fd), NULL);
      int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
      if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
      sim_sleep(MS);
    }
  }
  return syscall(SYS_fcntl, fd, cmd, arg);
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

EXPORT int flock(int fd, int op) {
  if (!ON) return syscall(SYS_flock, fd, op);
  char b[1100];
  fdpath(fd, b, sizeof b);
  int cl = fcl(fd);
  for (;;) {
    yield_(OP_FLOCK, cl, b);
    int e = inject(OP_FLOCK, cl, b);
    if (e) { errno = e; return -1; }
    int r = syscall(SYS_flock, fd, op | LOCK_NB);
    if (r == 0) {
      struct stat st;
      syscall(SYS_fstat, fd, &st);
      int id = -1;
      for (int i = 0; i < S->ninos; i++) if (S->inos[i] == st.st_ino) id = i;
      if (id < 0 && S->ninos < 512) { id = S->ninos++; S->inos[id] = st.st_ino; }
      sim_trace(S, "FLOCK %d op=%d %s ino=%d", PI, op & ~LOCK_NB, np(b), id);
      return 0;
    }
    if ((op & LOCK_NB) || errno != EWOULDBLOCK) return r;
    sim_sleep(MS);
  }
}

#define PATHOP(OPK, name, ap, call) \
  char b[1100]; abspath_at(AT_FDCWD, ap, b, sizeof b); int cl = classify(b); \
  yield_(OPK, cl, b); int e = inject(OPK, cl, b); int r; \
  if (e) { errno = e; r = -1; } else r = call; \
  audit(name, b, NULL, r, 0); return r;

EXPORT int mkdir(const char *p, mode_t m) {
  if (!ON) return syscall(SYS_mkdir, p, m);
  PATHOP(OP_MKDIR, "mkdir", p, syscall(SYS_mkdir, p, m))
}
EXPORT int rmdir(const char *p) {
  if (!ON) return syscall(SYS_rmdir, p);
  PATHOP(OP_RMDIR, "rmdir", p, syscall(SYS_rmdir, p))
}
EXPORT int unlink(const char *p) {
  if (!ON) return syscall(SYS_unlink, p);
  PATHOP(OP_UNLINK, "unlink", p, syscall(SYS_unlink, p))
}
EXPORT int remove(const char *p) {
  if (!ON) { if (syscall(SYS_unlink, p) == 0) return 0; return syscall(SYS_rmdir, p); }
  if (unlink(p) == 0) return 0;
  return rmdir(p);
}
EXPORT int truncate64(const char *p, off64_t n) {
  if (!ON) return syscall(SYS_truncate, p, n);
  PATHOP(OP_FTRUNC, "truncate", p, syscall(SYS_truncate, p, n))
}
EXPORT int chmod(const char *p, mode_t m) {
  if (!ON) return syscall(SYS_chmod, p, m);
  PATHOP(OP_CHMOD, "chmod", p, syscall(SYS_chmod, p, m))
}
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) {
  (void)fl;
  if (!ON) return syscall(SYS_fchmodat, d, p, m);
  char b0[1100];
  abspath_at(d, p, b0, sizeof b0);
  PATHOP(OP_CHMOD, "chmod", b0, syscall(SYS_fchmodat, d, p, m))
}
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  if (!ON) return syscall(SYS_mkdirat, d, p, m);
  char b0[1100];
  abspath_at(d, p, b0, sizeof b0);
  PATHOP(OP_MKDIR, "mkdir", b0, syscall(SYS_mkdirat, d, p, m))
}
EXPORT int unlinkat(int d, const char *p, int fl) {
  if (!ON) return syscall(SYS_unlinkat, d, p, fl);
  char b0[1100];
  abspath_at(d, p, b0, sizeof b0);
  if (fl & AT_REMOVEDIR) { PATHOP(OP_RMDIR, "rmdir", b0, syscall(SYS_unlinkat, d, p, fl)) }
  PATHOP(OP_UNLINK, "unlink", b0, syscall(SYS_unlinkat, d, p, fl))
}
static int do_rename(int d1, const char *p1, int d2, const char *p2, unsigned fl) {
  if (!ON) return syscall(SYS_renameat2, d1, p1, d2, p2, fl);
  char a[1100], b[1100];
  abspath_at(d1, p1, a, sizeof a);
  abspath_at(d2, p2, b, sizeof b);
  int cl = classify(b);
  yield_(OP_RENAME, cl, b);
  int e = inject(OP_RENAME, cl, b), r;
  if (e) { errno = e; r = -1; } else r = syscall(SYS_renameat2, d1, p1, d2, p2, fl);
  audit("rename", a, b, r, 0);
  return r;
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b, 0); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_rename(d, a, e, b, f); }
static int do_link(int sym, const char *t, int d, const char *l) {
  if (!ON) return sym ? syscall(SYS_symlinkat, t, d, l) : syscall(SYS_linkat, AT_FDCWD, t, d, l, 0);
  char b[1100];
  abspath_at(d, l, b, sizeof b);
  int cl = classify(b), op = sym ? OP_SYMLINK : OP_LINK;
  yield_(op, cl, b);
  int e = inject(op, cl, b), r;
  if (e) { errno = e; r = -1; }
  else r = sym ? syscall(SYS_symlinkat, t, d, l) : syscall(SYS_linkat, AT_FDCWD, t, d, l, 0);
  audit(sym ? "symlink" : "link", b, NULL, r, 0);
  return r;
}
EXPORT int symlink(const char *t, const char *l) { return do_link(1, t, AT_FDCWD, l); }
EXPORT int symlinkat(const char *t, int d, const char *l) { return do_link(1, t, d, l); }
EXPORT int link(const char *t, const char *l) { return do_link(0, t, AT_FDCWD, l); }
EXPORT int linkat(int d0, const char *t, int d, const char *l, int f) {
  if (ON && d0 == AT_FDCWD && f == 0) return do_link(0, t, d, l);
  return syscall(SYS_linkat, d0, t, d, l, f);
}
EXPORT ssize_t readlink(const char *p, char *buf, size_t n) {
  if (!ON) return syscall(SYS_readlink, p, buf, n);
  char b[1100];
  abspath_at(AT_FDCWD, p, b, sizeof b);
  int cl = classify(b);
  yield_(OP_READLINK, cl, b);
  int e = inject(OP_READLINK, cl, b);
  if (e) { errno = e; return -1; }
  return syscall(SYS_readlink, p, buf, n);
}
EXPORT char *realpath(const char *p, char *out) {
  REAL(char *, realpath, (const char *, char *));
  if (ON) {
    char b[1100];
    abspath_at(AT_FDCWD, p, b, sizeof b);
    int cl = classify(b);
    yield_(OP_REALPATH, cl, b);
    int e = inject(OP_REALPATH, cl, b);
    if (e) { errno = e; return NULL; }
  }
  return r_realpath(p, out);
}
EXPORT int ftruncate64(int fd, off64_t n) {
  if (!ON) return syscall(SYS_ftruncate, fd, n);
  char b[1100];
  fdpath(fd, b, sizeof b);
  int cl = fcl(fd);
  yield_(OP_FTRUNC, cl, b);
  int e = inject(OP_FTRUNC, cl, b), r;
  if (e) { errno = e; r = -1; } else r = syscall(SYS_ftruncate, fd, n);
  audit("ftruncate", b, NULL, r, 0);
  return r;
}
EXPORT int fchmod(int fd, mode_t m) {
  if (!ON) return syscall(SYS_fchmod, fd, m);
  char b[1100];
  fdpath(fd, b, sizeof b);
  int cl = fcl(fd);
  yield_(OP_CHMOD, cl, b);
  int e = inject(OP_CHMOD, cl, b), r;
  if (e) { errno = e; r = -1; } else r = syscall(SYS_fchmod, fd, m);
  audit("fchmod", b, NULL, r, 0);
  return r;
}
EXPORT int fsync(int fd) {
  if (!ON) return syscall(SYS_fsync, fd);
  char b[1100] = "";
  fdpath(fd, b, sizeof b);
  yield_(OP_FSYNC, fcl(fd), b);
  int e = inject(OP_FSYNC, fcl(fd), b);
  if (e) { errno = e; return -1; }
  return 0;
}
EXPORT int fdatasync(int fd) { return ON ? fsync(fd) : syscall(SYS_fdatasync, fd); }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) {
  if (ON) {
    char b[1100];
    abspath_at(d, p, b, sizeof b);
    yield_(OP_CHMOD, classify(b), b);
    int r = syscall(SYS_utimensat, d, p, t, f);
    audit("utimens", b, NULL, r, 0);
    return r;
  }
  return syscall(SYS_utimensat, d, p, t, f);
}
EXPORT int futimens(int fd, const struct timespec *t) {
  if (ON) {
    char b[1100];
    fdpath(fd, b, sizeof b);
    yield_(OP_CHMOD, fcl(fd), b);
    int r = syscall(SYS_utimensat, fd, NULL, t, 0);
    audit("utimens", b, NULL, r, 0);
    return r;
  }
  return syscall(SYS_utimensat, fd, NULL, t, 0);
}

EXPORT ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) {
  if (!ON) return syscall(SYS_copy_file_range, a, oa, b, ob, n, f);
  char p[1100];
  fdpath(b, p, sizeof p);
  int cl = fcl(b);
  yield_(OP_COPYRANGE, cl, p);
  if (S->cfr_mode) { errno = S->cfr_mode == 1 ? ENOSYS : S->cfr_mode == 2 ? EXDEV : EINVAL; return -1; }
  int e = inject(OP_COPYRANGE, cl, p);
  if (e) { errno = e; return -1; }
  struct stat st;
  size_t want = n;
  if (syscall(SYS_fstat, a, &st) == 0 && (u64)st.st_size < want) want = st.st_size;
  if (want > 1 && shorten(want) < want) n = 1 + rng_below(&S->rng_misc, want - 1);
  return syscall(SYS_copy_file_range, a, oa, b, ob, n, f);
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (!ON) return syscall(SYS_sendfile, o, i, off, n);
  char p[1100];
  fdpath(o, p, sizeof p);
  int cl = fcl(o);
  yield_(OP_COPYRANGE, cl, p);
  if (S->cfr_mode == 3) { errno = EINVAL; return -1; }
  int e = inject(OP_COPYRANGE, cl, p);
  if (e) { errno = e; return -1; }
  struct stat st;
  size_t want = n;
  if (syscall(SYS_fstat, i, &st) == 0 && (u64)st.st_size < want) want = st.st_size;
  if (want > 1 && shorten(want) < want) n = 1 + rng_below(&S->rng_misc, want - 1);
  return syscall(SYS_sendfile, o, i, off, n);
}
EXPORT ssize_t splice(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) {
  if (ON) { YIELD(OP_COPYRANGE); errno = EINVAL; return -1; }
  return syscall(SYS_splice, a, oa, b, ob, n, f);
}

static int stat_pre(int d, const char *p) {
  char b[1100];
  abspath_at(d, p, b, sizeof b);
  int cl = classify(b);
  yield_(OP_STAT, cl, b);
  if (!strncmp(b, "/sys/", 5)) { errno = ENOENT; return -1; }
  int e = inject(OP_STAT, cl, b);
  if (e) { errno = e; return -1; }
  return 0;
}
EXPORT int stat64(const char *p, struct stat64 *st) { if (ON && stat_pre(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
EXPORT int lstat64(const char *p, struct stat64 *st) { if (ON && stat_pre(AT_FDCWD, p)) return -1; return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { if (ON && stat_pre(d, p)) return -1; return syscall(SYS_newfstatat, d, p, st, fl); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
  const char *q = p;
  __asm__("" : "+r"(q)); // std probes for statx with a null path; the prototype says nonnull
  if (ON && q && *q && stat_pre(d, q)) return -1;
  return syscall(SYS_statx, d, p, fl, mask, st);
}
EXPORT int access(const char *p, int m) { if (ON && stat_pre(AT_FDCWD, p)) return -1; return syscall(SYS_access, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int f) { (void)f; if (ON && stat_pre(d, p)) return -1; return syscall(SYS_faccessat, d, p, m); }

// ---------------------------------------------------------------- directories
struct dirbuf { DIR *d; struct dirent64 *e; int n, pos, loaded, cl; char path[600]; };
static struct dirbuf dirs[256];
static struct dirbuf *dir_slot(DIR *d) {
  for (int i = 0; i < 256; i++) if (dirs[i].d == d) return &dirs[i];
  return NULL;
}
static DIR *dir_register(DIR *d, const char *path) {
  if (!d) return d;
  struct dirbuf *s = dir_slot(NULL);
  if (!s) die_unsupported("too many open directories");
  memset(s, 0, sizeof *s);
  s->d = d;
  snprintf(s->path, sizeof s->path, "%s", path);
  s->cl = classify(path);
  return d;
}
EXPORT DIR *opendir(const char *p) {
  REAL(DIR *, opendir, (const char *));
  if (!ON) return r_opendir(p);
  char b[1100];
  abspath_at(AT_FDCWD, p, b, sizeof b);
  int cl = classify(b);
  yield_(OP_OPENDIR, cl, b);
  int e = inject(OP_OPENDIR, cl, b);
  if (e) { errno = e; return NULL; }
  return dir_register(r_opendir(p), b);
}
EXPORT DIR *fdopendir(int fd) {
  REAL(DIR *, fdopendir, (int));
  if (!ON) return r_fdopendir(fd);
  char b[1100];
  fdpath(fd, b, sizeof b);
  yield_(OP_OPENDIR, CL_OTHER, b);
  return dir_register(r_fdopendir(fd), b);
}
static int cmp_ent(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
EXPORT struct dirent64 *readdir64(DIR *d) {
  REAL(struct dirent64 *, readdir64, (DIR *));
  struct dirbuf *s;
  if (!ON || !(s = dir_slot(d))) return r_readdir64(d);
  yield_(OP_READDIR, s->cl, s->path);
  int e = inject(OP_READDIR, s->cl, s->path);
  if (e) { errno = e; return NULL; }
  if (!s->loaded) {
    s->loaded = 1;
    int cap = 0;
    struct dirent64 *x;
    while ((x = r_readdir64(d))) {
      if (s->n == cap) { cap = cap ? cap * 2 : 16; s->e = realloc(s->e, cap * sizeof *s->e); }
      size_t len = x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x;
      memset(&s->e[s->n], 0, sizeof *s->e);
      memcpy(&s->e[s->n++], x, len);
    }
    if (s->n) qsort(s->e, s->n, sizeof *s->e, cmp_ent);
    if (S->readdir_shuffle)
      for (int i = s->n - 1; i > 0; i--) {
        int j = rng_below(&S->rng_misc, i + 1);
        struct dirent64 t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
      }
  }
  if (s->pos >= s->n) { errno = 0; return NULL; }
  return &s->e[s->pos++];
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  REAL(int, closedir, (DIR *));
  struct dirbuf *s;
  if (ON && (s = dir_slot(d))) { free(s->e); memset(s, 0, sizeof *s); int fd = dirfd(d); if (fd >= 0 && fd < NFD) fdclass[fd] = fdpipe[fd] = 0; }
  return r_closedir(d);
}

// ---------------------------------------------------------------- processes
EXPORT pid_t fork(void) {
  REAL(pid_t, fork, (void));
  if (!ON) return r_fork();
  yield_(OP_FORK, CL_OTHER, NULL);
  int e = inject(OP_FORK, CL_OTHER, NULL);
  if (e) { errno = e; return -1; }
  S->mbox_len = 0;
  pid_t p = r_fork();
  if (p < 0) die_unsupported("real fork failed");
  if (p == 0) { stub_child = 1; return 0; }
  int st = 0;
  while (syscall(SYS_wait4, p, &st, 0, NULL) < 0) if (errno != EINTR) die_unsupported("wait4 stub");
  if (S->nchild >= MAXC) die_unsupported("too many children");
  // Ask the controller to start the simulated child described in the mailbox (if exec failed
  // mbox_len is 0 and the child is an immediate zombie that will be reaped by std).
  S->rpc_req = 1;
  S->rpc_arg = st;
  S->t[me].state = T_BLOCK;
  S->t[me].blk = B_CTL;
  S->t[me].wake = INF;
  S->cur = 0;
  int self = me;
  give(S, 0);
  take(S, self);
  S->cur = self;
  S->t[me].state = T_RUN;
  S->t[me].blk = B_NONE;
  return S->rpc_arg;
}
EXPORT pid_t vfork(void) { if (ON) die_unsupported("vfork"); return fork(); }

extern char **environ;
static int mput(const char *s) {
  size_t n = strlen(s) + 1;
  if (S->mbox_len + n >= MBOX_CAP) return -1;
  memcpy(S->mbox + S->mbox_len, s, n);
  S->mbox_len += n;
  return 0;
}
EXPORT int execvp(const char *file, char *const argv[]) {
  if (!stub_child) {
    REAL(int, execvp, (const char *, char *const[]));
    return r_execvp(file, argv);
  }
  int e = inject(OP_EXEC, CL_OTHER, NULL);
  if (e) { errno = e; return -1; }
  char b[1100], num[64];
  pid_t pg = syscall(SYS_getpgid, 0), pid = syscall(SYS_getpid);
  mput(pg == pid ? "own" : "parent");
  if (syscall(SYS_getcwd, b, sizeof b) < 0) b[0] = 0;
  mput(b);
  int n = 0;
  while (argv[n]) n++;
  snprintf(num, sizeof num, "%d", n);
  mput(num);
  for (int i = 0; i < n; i++) mput(argv[i]);
  n = 0;
  while (environ[n]) n++;
  snprintf(num, sizeof num, "%d", n);
  mput(num);
  int jr = -1, jw = -1;
  for (int i = 0; i < n; i++) {
    mput(environ[i]);
    if (!strncmp(environ[i], "CARGO_MAKEFLAGS=", 16) || !strncmp(environ[i], "MAKEFLAGS=", 10)) {
      const char *q = strstr(environ[i], "--jobserver-auth=");
      if (q) sscanf(q, "--jobserver-auth=%d,%d", &jr, &jw);
    }
  }
  // which fds survive exec?
  int fds[5], nf = 3;
  for (int i = 0; i < 3; i++) {
    fds[i] = i;
    if (syscall(SYS_fcntl, i, F_GETFD, 0) < 0) fds[i] = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
  }
  int jok = 0;
  if (jr >= 0 && jw >= 0) {
    int a = syscall(SYS_fcntl, jr, F_GETFD, 0), c = syscall(SYS_fcntl, jw, F_GETFD, 0);
    jok = a >= 0 && c >= 0 && !(a & FD_CLOEXEC) && !(c & FD_CLOEXEC);
    if (jok) { fds[3] = jr; fds[4] = jw; nf = 5; }
  }
  mput(jr < 0 ? "nojs" : jok ? "jsok" : "jsbad");
  char cb[CMSG_SPACE(5 * sizeof(int))];
  memset(cb, 0, sizeof cb);
  char one = 'x';
  struct iovec iov = { &one, 1 };
  struct msghdr m = { .msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = CMSG_SPACE(nf * sizeof(int)) };
  struct cmsghdr *c = CMSG_FIRSTHDR(&m);
  c->cmsg_level = SOL_SOCKET;
  c->cmsg_type = SCM_RIGHTS;
  c->cmsg_len = CMSG_LEN(nf * sizeof(int));
  memcpy(CMSG_DATA(c), fds, nf * sizeof(int));
  if (syscall(SYS_sendmsg, sockfd, &m, 0) < 0) { dprintf(2, "sim shim: sendmsg failed %d\n", errno); syscall(SYS_exit_group, 96); }
  syscall(SYS_exit_group, 0);
  return -1;
}
EXPORT int execve(const char *f, char *const a[], char *const env[]) {
  if (stub_child) { environ = (char **)env; return execvp(f, a); }
  return syscall(SYS_execve, f, a, env);
}
EXPORT int execv(const char *f, char *const a[]) {
  if (stub_child) return execvp(f, a);
  return syscall(SYS_execve, f, a, environ);
}
EXPORT int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  REAL(int, posix_spawnp, (pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]));
  if (ON) die_unsupported("posix_spawnp");
  return r_posix_spawnp(p, f, fa, at, argv, envp);
}

static int find_child(int vpid) {
  for (int i = S->nchild - 1; i >= 0; i--) if (S->c[i].vpid == vpid && !S->c[i].is_grand) return i;
  return -1;
}
EXPORT pid_t waitpid(pid_t pid, int *st, int fl) {
  if (!ON) return syscall(SYS_wait4, pid, st, fl, NULL);
  yield_(OP_WAIT, CL_OTHER, NULL);
  int k = find_child(pid);
  if (k < 0 || S->c[k].proc != PI || S->c[k].state == C_REAPED) { errno = ECHILD; return -1; }
  for (;;) {
    if (S->c[k].state == C_ZOMBIE) {
      S->c[k].state = C_REAPED;
      if (st) *st = S->c[k].status;
      sim_trace(S, "REAP %d c=%d st=%d poll4=%llu", PI, pid, S->c[k].status, (unsigned long long)S->c[k].polls[0]);
      return pid;
    }
    if (fl & WNOHANG) {
      u64 *q = S->c[k].polls;
      q[0] = q[1]; q[1] = q[2]; q[2] = q[3]; q[3] = S->now;
      return 0;
    }
    block(B_CHILD, k, INF);
    deliver();
  }
}
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) {
  if (ON) {
    if (t != P_PID) die_unsupported("waitid");
    int st;
    if (fl & WNOWAIT) {
      yield_(OP_WAIT, CL_OTHER, NULL);
      int k = find_child(id);
      if (k < 0 || S->c[k].state == C_REAPED) { errno = ECHILD; return -1; }
      while (S->c[k].state != C_ZOMBIE) {
        if (fl & WNOHANG) { memset(si, 0, sizeof *si); return 0; }
        block(B_CHILD, k, INF);
        deliver();
      }
      memset(si, 0, sizeof *si);
      si->si_pid = id;
      return 0;
    }
    pid_t r = waitpid(id, &st, fl & WNOHANG);
    if (r < 0) return -1;
    memset(si, 0, sizeof *si);
    if (r == 0) return 0;
    si->si_pid = r;
    si->si_signo = SIGCHLD;
    if (WIFEXITED(st)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(st); }
    else { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(st); }
    return 0;
  }
  return syscall(SYS_waitid, t, id, si, fl, NULL);
}

static void kill_child(int i, int sig) {
  struct child *c = &S->c[i];
  sim_trace(S, "KILLED c=%d pg=%d grand=%d sig=%d state=%d poll4=%llu", c->vpid, c->pgid, c->is_grand, sig, c->state, (unsigned long long)c->polls[0]);
  if (c->state != C_RUNNING || sig == 0) return;
  if (c->stubborn && sig != SIGKILL) return;
  if (c->killed_sig && sig != SIGKILL) return; // already dying
  c->killed_sig = sig;
  c->killed_at = S->now;
  u64 d = sig == SIGKILL ? 0 : rng_below(&S->rng_misc, S->term_delay_max + 1);
  if (S->now + d < c->exit_at) c->exit_at = S->now + d;
  recalc_child_ev(S);
}
EXPORT int killpg(pid_t pg, int sig) {
  if (!ON) return syscall(SYS_kill, -pg, sig);
  yield_(OP_KILL, CL_OTHER, NULL);
  sim_trace(S, "KILLPG %d pg=%d sig=%d", PI, pg, sig);
  int e = inject(OP_KILL, CL_OTHER, NULL);
  if (e) { errno = e; return -1; }
  int n = 0;
  for (int i = 0; i < S->nchild; i++)
    if (S->c[i].pgid == pg && (S->c[i].state == C_RUNNING || S->c[i].state == C_ZOMBIE)) { n++; kill_child(i, sig); }
  if (!n) { errno = ESRCH; return -1; }
  return 0;
}
EXPORT int kill(pid_t pid, int sig) {
  if (!ON) return syscall(SYS_kill, pid, sig);
  if (pid < -1) return killpg(-pid, sig);
  yield_(OP_KILL, CL_OTHER, NULL);
  sim_trace(S, "KILL %d pid=%d sig=%d", PI, pid, sig);
  if (pid == S->p[PI].vpid) { S->p[PI].pending |= 1u << sig; deliver(); return 0; }
  int k = find_child(pid);
  if (k < 0 || S->c[k].state == C_REAPED) { errno = ESRCH; return -1; }
  kill_child(k, sig);
  return 0;
}
EXPORT int raise(int sig) {
  if (ON && (sig == SIGINT || sig == SIGTERM)) return kill(S->p[PI].vpid, sig);
  return syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
}
