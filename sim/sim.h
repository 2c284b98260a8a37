// Shared state and scheduler of the deterministic simulator.
// One MAP_SHARED region is mapped by the controller (simctl) and by every simulated
// cargo-mutants process (through the LD_PRELOAD shim).  Exactly one task -- a thread of a
// simulated process, or the controller -- runs at any moment: the one holding the baton.
#ifndef SIM_H
#define SIM_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint8_t u8;

#define MAXT 64      // tasks
#define MAXP 6       // simulated cargo-mutants processes per episode
#define MAXC 16384   // simulated child processes
#define MAXFAULT 64
#define MAXSW 65536  // recorded / explicit switches
#define MAXSRC 256
#define TRACE_CAP (64u << 20)
#define COV_CAP 262144
#define MBOX_CAP (1u << 20)
#define INF UINT64_MAX
#define MS 1000000ull
#define SEC 1000000000ull

enum { T_FREE = 0, T_RUN, T_BLOCK, T_DEAD };
enum { B_NONE = 0, B_SLEEP, B_FUTEX, B_JOIN, B_CHILD, B_FD, B_CTL };
enum { P_UNUSED = 0, P_WAITING, P_LIVE, P_DEAD };
enum { C_FREE = 0, C_RUNNING, C_ZOMBIE, C_REAPED };

// operation kinds (for faults, statistics)
#define OPS(X) X(OPENR) X(OPENW) X(READ) X(WRITE) X(CLOSE) X(MKDIR) X(RENAME) X(UNLINK) X(RMDIR) \
  X(SYMLINK) X(READLINK) X(OPENDIR) X(READDIR) X(STAT) X(COPYRANGE) X(FTRUNC) X(CHMOD) X(FLOCK) \
  X(FORK) X(EXEC) X(REALPATH) X(THREAD) X(FSYNC) X(LINK) X(PIPE) X(FUTEX) X(SLEEP) X(CLOCK) \
  X(WAIT) X(KILL) X(POLL) X(JOIN) X(EDGE) X(MISC)
enum {
#define X(a) OP_##a,
  OPS(X)
#undef X
  OP_N
};
// path classes
enum { CL_OTHER = 0, CL_OUT, CL_TMP, CL_SRC, CL_STD, CL_DBG, CL_LIST, CL_JSON, CL_LOG, CL_N };

// fault kinds
enum { F_ERRNO = 1, F_SIGNAL, F_RTJUMP, F_STALL };
// triggers
enum { TR_NTH = 1, TR_TIME, TR_CHILD, TR_SIG };

struct fault {
  int kind, err, proc;      // proc -1 = any
  u64 opmask;
  u32 clmask;
  int trig;
  u64 nth;                  // TR_NTH: fire at nth matching op (1-based); TR_CHILD: nth child
  u64 persist;              // TR_NTH F_ERRNO: how many further matching ops also fail
  u64 at;                   // TR_TIME: virtual ns; TR_CHILD: delay after child start
  i64 amount;               // stall / jump ns
  u64 seen;
  u64 left;
  int fired;
  char substr[96];          // optional: path must contain this
};

struct task {
  u32 go;
  int state, proc, blk, woken, is_main;
  u64 key, wake;
  u64 pth;
  int prio;
  u64 ready;                // since when it could have run
  char pad[8];
};

struct proc {
  int state, rpid, vpid, status, main_task, episode_idx;
  u64 start_at, started, ended;
  int start_after;          // proc index which must be dead first, or -1
  u32 pending;              // pending signal bitmask
  u64 h_int, h_term, h_hup; // handler addresses: 0 default, 1 ignore
  u64 ops;
  u64 nchild;               // build/test children started
  int live;                 // threads besides the main one
  int nsig;                 // signals handled so far
};

struct child {
  int state, vpid, pgid, proc, status, is_grand, phase, stub, leader;
  u64 start, exit_at, killed_at, died;
  int killed_sig;
  int hang;
  int stubborn;             // ignores every signal but SIGKILL
  int fd0, fd1, fd2, jr, jw, tokens;
  u64 snap;
  u64 polls[4];             // last times it was looked at and found running
  char cwd[512];
};

struct shm {
  u32 magic;
  // ---- plan ----
  u64 seed_sched, seed_misc, seed_behav;
  u32 p_switch;         // per 10000 at each yield
  u64 fair_at;          // when some task will have waited for its turn for FAIR_NS
  u32 edge_mean;        // mean number of edges between forced preemption decisions, 0 = off
  u32 edge_burst;       // percent chance that an edge quantum is tiny
  u64 op_cost_max;      // ns
  u32 p_stall;          // per million yields: stall the task
  u64 stall_max;        // ns
  u32 p_estall;         // per 10000: stall at an edge that more than one thread lives to see, while it is new
  u64 estall_max;       // ns
  u32 p_sstall;         // per 10000: stall at an edge within a lock, unlock, send, receive or atomic operation
  u32 p_short;          // per 10000: short read/write/copy
  u32 p_spurious;       // per 10000: spurious futex wakeup
  int readdir_shuffle;
  int tty;              // bit 0: stdout is a terminal; bit 1: stderr
  int ncpus;
  int cfr_mode;         // copy_file_range: 0 normal, 1 ENOSYS, 2 EXDEV, 3 EINVAL
  i64 rt_off;           // realtime = now + rt_off
  u64 max_vtime, max_points;
  int explicit_sched;   // use sw[] instead of PRNG
  int nfault;
  struct fault fault[MAXFAULT];
  char root[256];       // run directory
  int rootlen;
  char ws[256];
  // ---- dynamic ----
  u64 rng_sched, rng_misc, rng_io;
  u64 now;
  u64 points;           // global decision point counter (yields + edges)
  u64 yields, edges, switches, preempts;
  u64 edge_left;        // edges until next preemption decision
  u64 next_sw_point;
  u32 nsw, sw_pos, sw_overflow;
  struct { u64 point; int task; int pad; } sw[MAXSW];
  int cur;              // task holding the baton
  int ntask;
  int ending;           // 1 = controller is tearing down
  int limit;            // 1 deadlock, 2 vtime, 3 points
  u64 hash;             // execution hash
  u64 il_hash;          // interleaving hash: sequence of (task, kind of point) at switches
  u64 opcount[OP_N];
  u64 nfired, nshort, nspur, nstall, stall_ns;
  struct task t[MAXT];
  struct proc p[MAXP];
  int nproc;
  struct child c[MAXC];
  int nchild, next_vpid;
  int first_live;       // children below this index are not running
  int alive;            // running children (including grandchildren)
  u64 next_child_ev;    // cached earliest exit_at
  // term behaviour
  u64 term_delay_max;
  int rpc_req;          // request to the controller
  int rpc_arg;
  u64 inos[512]; int ninos;
  u32 mbox_len;
  char mbox[MBOX_CAP];
  u32 cov_n;
  u8 cov[COV_CAP];       // bit 0: edge taken; bit 1: within a synchronising function
  u32 nsync;
  u32 sync[8192];       // start, end of such functions, sorted
  u8 fresh[COV_CAP];    // times each edge was taken with several threads about
  u64 trace_len;
  int trace_full;
  char trace[TRACE_CAP];
};

static inline u64 rng_next(u64 *s) { // splitmix64
  u64 z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline u64 rng_below(u64 *s, u64 n) { return n ? rng_next(s) % n : 0; }
static inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static inline u64 hash_bytes(u64 h, const void *p, size_t n) {
  const u8 *b = p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  return h;
}

static inline long raw_futex(u32 *a, int op, u32 v, const struct timespec *ts) {
  long r;
  register const struct timespec *r10 __asm__("r10") = ts;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r)
                   : "0"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

static void sim_trace(struct shm *S, const char *fmt, ...) __attribute__((format(printf, 2, 3), unused));
static void sim_trace(struct shm *S, const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  int e = errno;
  int n = snprintf(buf, 64, "%llu ", (unsigned long long)(S->now / 1000));
  va_start(ap, fmt);
  int m = vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  va_end(ap);
  if (m > (int)sizeof buf - n - 3) m = sizeof buf - n - 3;
  n += m;
  buf[n++] = '\n';
  if (S->trace_len + n < TRACE_CAP) {
    memcpy(S->trace + S->trace_len, buf, n);
    S->trace_len += n;
  } else S->trace_full = 1;
  errno = e;
}

static inline void give(struct shm *S, int t) {
  S->cur = t;
  __atomic_store_n(&S->t[t].go, 1, __ATOMIC_SEQ_CST);
  raw_futex(&S->t[t].go, FUTEX_WAKE, 1, NULL);
}
static inline void take(struct shm *S, int t) {
  while (__atomic_load_n(&S->t[t].go, __ATOMIC_SEQ_CST) == 0) raw_futex(&S->t[t].go, FUTEX_WAIT, 0, NULL);
  __atomic_store_n(&S->t[t].go, 0, __ATOMIC_SEQ_CST);
}

static inline void recalc_child_ev(struct shm *S) {
  u64 m = INF;
  int alive = 0;
  while (S->first_live < S->nchild && S->c[S->first_live].state != C_RUNNING) S->first_live++;
  for (int i = S->first_live; i < S->nchild; i++)
    if (S->c[i].state == C_RUNNING) { alive++; if (S->c[i].exit_at < m) m = S->c[i].exit_at; }
  S->alive = alive;
  S->next_child_ev = m;
}
// Earliest time the controller (task 0) has work to do.
static inline u64 ctl_wake(struct shm *S) {
  u64 m = S->next_child_ev;
  for (int i = 0; i < S->nproc; i++)
    if (S->p[i].state == P_WAITING && (S->p[i].start_after < 0 || S->p[S->p[i].start_after].state == P_DEAD)) {
      u64 w = S->p[i].start_at;
      if (S->p[i].start_after >= 0) w += S->p[S->p[i].start_after].ended;
      if (w < m) m = w;
    }
  for (int i = 0; i < S->nfault; i++) {
    struct fault *f = &S->fault[i];
    if (f->trig == TR_TIME && !f->fired && f->at < m) m = f->at;
  }
  return m;
}

#define FAIR_NS 10000000ull
static inline int runnable(struct shm *S, int i) {
  struct task *t = &S->t[i];
  if (t->state == T_RUN) return 1;
  if (t->state == T_BLOCK && t->wake <= S->now) return 1;
  return 0;
}

// Pick the next task to run.  `self` is the task giving up the baton (or -1).  Returns -1 if
// the simulation cannot go on (deadlock / limits): the controller must take over.
static inline int sched_pick(struct shm *S, int self, int natural) {
  for (;;) {
    S->t[0].wake = ctl_wake(S);
    int list[MAXT], n = 0;
    for (int i = 0; i < S->ntask; i++) if (runnable(S, i)) list[n++] = i;
    if (n == 0) {
      u64 m = INF;
      for (int i = 0; i < S->ntask; i++) if (S->t[i].state == T_BLOCK && S->t[i].wake < m) m = S->t[i].wake;
      if (m == INF) { S->limit = 1; return 0; }
      if (m > S->max_vtime) { S->limit = 2; return 0; }
      S->now = m;
      continue;
    }
    int choice;
    int dflt = -1;
    for (int i = 0; i < n; i++) if (list[i] == self) dflt = self;
    if (dflt < 0) dflt = list[0];
    if (S->explicit_sched) {
      choice = dflt;
      while (S->sw_pos < S->nsw && S->sw[S->sw_pos].point < S->points) S->sw_pos++;
      if (S->sw_pos < S->nsw && S->sw[S->sw_pos].point == S->points) {
        int w = S->sw[S->sw_pos].task;
        for (int i = 0; i < n; i++) if (list[i] == w) choice = w;
        S->sw_pos++;
      }
    } else {
      choice = list[n > 1 ? rng_below(&S->rng_sched, n) : 0];
      // No task that can run is left waiting for long.
      u64 old = S->now > FAIR_NS ? S->now - FAIR_NS : 0;
      for (int i = 0; i < n; i++) {
        struct task *t = &S->t[list[i]];
        if (t->ready && t->ready < old) { choice = list[i]; old = t->ready; }
      }
      u64 first = S->now;
      for (int i = 0; i < n; i++) {
        struct task *t = &S->t[list[i]];
        if (list[i] == choice) t->ready = 0;
        else { if (!t->ready) t->ready = S->now; if (t->ready < first) first = t->ready; }
      }
      S->fair_at = first + FAIR_NS;
      if (choice != dflt) {
        if (S->nsw < MAXSW) { S->sw[S->nsw].point = S->points; S->sw[S->nsw].task = choice; S->nsw++; }
        else S->sw_overflow = 1;
      }
    }
    (void)natural;
    return choice;
  }
}
#endif
