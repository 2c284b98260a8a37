// Controller of one simulated episode: launches the real cargo-mutants processes under the shim,
// owns the virtual children (the simulated `cargo`), injects timed faults, detects process death,
// deadlock and limits, and writes the recorded history.
#include "sim.h"
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>

static struct shm *S;
static char *binary, *shim, *ctl;
static char shm_path[512];
static int sock[2];
static char *envs[64];
static int nenv;
struct pdef { char cwd[512]; char *argv[128]; int argc; char out[256]; };
static struct pdef pd[MAXP];
static char *srcs[MAXSRC];
static int nsrc;
static int beh[3][4];      // build,test,check x ok,fail,sig,hang (weights)
static int base_beh[3];    // 0 ok 1 fail 2 sig 3 hang
static u64 dur_lo = 50, dur_hi = 3000;      // ms
static u64 bdur_lo = 100, bdur_hi = 3000;   // baseline
static u64 near_ms; static int near_pct;
static u64 nmul_b, nmul_t;                  // durations near this many thousandths of the baseline's build and test
static u64 based[3];
static int grand_pct, mk_target_pct, meta_fail, tok_pct, noise_pct, stubborn_pct, flaky, failcode = 101;
static u64 pristine_key;
static FILE *snapf;
static u64 snaps[65536]; static int nsnaps;
static u64 blobs[65536]; static int nblobs;
static int dead_flag[MAXP], dead_status[MAXP];
static int wall_s = 60, watch_src;

static void die(const char *m) { fprintf(stderr, "simctl: %s (errno %d)\n", m, errno); exit(3); }

static const char *np(const char *p) {
  static char b[4][1200];
  static int k;
  k = (k + 1) & 3;
  if (!strncmp(p, S->root, S->rootlen) && (p[S->rootlen] == '/' || !p[S->rootlen])) snprintf(b[k], sizeof b[k], "@%s", p + S->rootlen);
  else snprintf(b[k], sizeof b[k], "%s", p);
  return b[k];
}

// ------------------------------------------------------------- snapshots of a build directory
static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
struct sb { char *p; size_t n, cap; };
static void sb_add(struct sb *s, const char *fmt, ...) {
  va_list ap;
  if (s->cap - s->n < 2048) { s->cap = s->cap * 2 + 8192; s->p = realloc(s->p, s->cap); }
  va_start(ap, fmt);
  s->n += vsnprintf(s->p + s->n, s->cap - s->n, fmt, ap);
  va_end(ap);
}
static char *slurp(int dfd, const char *name, size_t *n) {
  int fd = openat(dfd, name, O_RDONLY | O_NOFOLLOW);
  if (fd < 0) return NULL;
  struct stat st;
  fstat(fd, &st);
  char *b = malloc(st.st_size + 1);
  size_t k = 0;
  ssize_t r;
  while (k < (size_t)st.st_size && (r = read(fd, b + k, st.st_size - k)) > 0) k += r;
  close(fd);
  b[k] = 0;
  *n = k;
  return b;
}
static int walk_inplace;
static void walk(int dfd, const char *rel, struct sb *out, int depth) {
  DIR *d = fdopendir(dup(dfd));
  if (!d) return;
  char *names[4096];
  int n = 0;
  struct dirent *e;
  while ((e = readdir(d)) && n < 4096) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    if (walk_inplace && (!strcmp(e->d_name, "mutants.out") || !strcmp(e->d_name, "mutants.out.old"))) continue;
    if (depth == 1 && !strcmp(rel, "target") && !strncmp(e->d_name, "sim.", 4)) continue; // written by the simulated cargo
    names[n++] = strdup(e->d_name);
  }
  closedir(d);
  qsort(names, n, sizeof *names, cmpstr);
  for (int i = 0; i < n; i++) {
    struct stat st;
    char path[1024];
    snprintf(path, sizeof path, "%s%s%s", rel, *rel ? "/" : "", names[i]);
    if (fstatat(dfd, names[i], &st, AT_SYMLINK_NOFOLLOW) == 0) {
      if (S_ISDIR(st.st_mode)) {
        size_t mark = out->n;
        sb_add(out, "D %o 0 0 %s\n", st.st_mode & 07777, path);
        size_t mark2 = out->n;
        int fd = openat(dfd, names[i], O_RDONLY | O_DIRECTORY);
        if (fd >= 0) { walk(fd, path, out, depth + 1); close(fd); }
        if (depth == 0 && !strcmp(names[i], "target") && out->n == mark2) out->n = mark, out->p[mark] = 0;
      } else if (S_ISLNK(st.st_mode)) {
        char l[1024];
        ssize_t k = readlinkat(dfd, names[i], l, sizeof l - 1);
        l[k > 0 ? k : 0] = 0;
        sb_add(out, "L 0 0 %s %s\n", np(l), path);
      } else if (S_ISREG(st.st_mode)) {
        size_t k = 0;
        char *b = slurp(dfd, names[i], &k);
        u64 h = b ? hash_bytes(0xcbf29ce484222325ull, b, k) : 0;
        sb_add(out, "F %o %zu %016llx %s\n", st.st_mode & 07777, k, (unsigned long long)h, path);
        int seen = 0;
        for (int j = 0; j < nblobs; j++) if (blobs[j] == h) { seen = 1; break; }
        if (!seen && nblobs < 65536) {
          blobs[nblobs++] = h;
          char bp[600];
          snprintf(bp, sizeof bp, "%s/blobs/%016llx", ctl, (unsigned long long)h);
          int fd = open(bp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
          if (fd >= 0) { if (write(fd, b, k) < 0) {} close(fd); }
        }
        free(b);
      } else sb_add(out, "O 0 0 0 %s\n", path);
    }
    free(names[i]);
  }
}
static int snapshot(const char *dir) {
  int fd = open(dir, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return -1;
  struct sb s = {0};
  sb_add(&s, "%s", "");
  walk_inplace = !strncmp(dir, S->ws, strlen(S->ws)) && (dir[strlen(S->ws)] == '/' || !dir[strlen(S->ws)]);
  walk(fd, "", &s, 0);
  close(fd);
  u64 h = hash_bytes(0xcbf29ce484222325ull, s.p, s.n);
  int id = -1;
  for (int i = 0; i < nsnaps; i++) if (snaps[i] == h) id = i;
  if (id < 0 && nsnaps < 65536) {
    id = nsnaps++;
    snaps[id] = h;
    fprintf(snapf, "SNAP %d\n", id);
    fwrite(s.p, 1, s.n, snapf);
    fflush(snapf);
  }
  free(s.p);
  return id;
}
static u64 src_key(const char *dir) {
  u64 h = 1469598103934665603ull;
  for (int i = 0; i < nsrc; i++) {
    char p[1200];
    snprintf(p, sizeof p, "%s/%s", dir, srcs[i]);
    int fd = open(p, O_RDONLY);
    h = hash_bytes(h, srcs[i], strlen(srcs[i]) + 1);
    if (fd < 0) { h = mix(h, 7); continue; }
    char b[65536];
    ssize_t r;
    char prev = 0;
    while ((r = read(fd, b, sizeof b)) > 0)
      for (ssize_t j = 0; j < r; j++) {
        if (prev == '\r' && b[j] != '\n') { h ^= '\r'; h *= 0x100000001b3ull; }
        prev = b[j];
        if (b[j] == '\r') continue;
        h ^= (u8)b[j];
        h *= 0x100000001b3ull;
      }
    if (prev == '\r') { h ^= '\r'; h *= 0x100000001b3ull; }
    close(fd);
  }
  return h;
}

// ------------------------------------------------------------- simulated cargo
static void wr(int fd, const char *s, size_t n) {
  while (n) { ssize_t r = write(fd, s, n); if (r <= 0) return; s += r; n -= r; }
}
static void wrs(int fd, const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  wr(fd, b, n);
}
static u64 range(u64 *s, u64 lo, u64 hi) { return hi > lo ? lo + rng_below(s, hi - lo + 1) : lo; }
static u64 logrange(u64 *s, u64 lo, u64 hi) { // roughly log-uniform
  if (hi <= lo) return lo;
  u64 span = hi - lo, r = rng_next(s), k = 0;
  while (span >> k > 1) k++;
  u64 top = span >> (r % (k + 1));
  return lo + rng_below(s, top + 1);
}

static int new_child(int proc) {
  if (S->nchild >= MAXC) die("too many children");
  int k = S->nchild++;
  struct child *c = &S->c[k];
  memset(c, 0, sizeof *c);
  c->vpid = S->next_vpid++;
  c->proc = proc;
  c->start = S->now;
  c->exit_at = INF;
  c->fd0 = c->fd1 = c->fd2 = c->jr = c->jw = -1;
  return k;
}

static void child_fork_failed(int proc, int stub_status) {
  int k = new_child(proc);
  S->c[k].state = C_ZOMBIE;
  S->c[k].status = stub_status;
  S->c[k].pgid = S->c[k].vpid;
  sim_trace(S, "EXECFAIL p=%d c=%d st=%d", proc, S->c[k].vpid, stub_status);
  S->rpc_arg = S->c[k].vpid;
}

static void start_child(int proc, int stub_status) {
  if (S->mbox_len == 0) { child_fork_failed(proc, stub_status); return; }
  if (stub_status != 0) die("stub child failed");
  // receive fds
  char cb[CMSG_SPACE(5 * sizeof(int))], one;
  struct iovec iov = { &one, 1 };
  struct msghdr m = { .msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb };
  if (recvmsg(sock[0], &m, MSG_CMSG_CLOEXEC) <= 0) die("recvmsg");
  struct cmsghdr *cm = CMSG_FIRSTHDR(&m);
  int nf = (cm->cmsg_len - CMSG_LEN(0)) / sizeof(int), fds[5] = { -1, -1, -1, -1, -1 };
  memcpy(fds, CMSG_DATA(cm), nf * sizeof(int));
  // parse mailbox
  char *p = S->mbox;
  int own = !strcmp(p, "own"); p += strlen(p) + 1;
  char *cwd = p; p += strlen(p) + 1;
  int argc = atoi(p); p += strlen(p) + 1;
  char *argv[512] = {0};
  for (int i = 0; i < argc; i++) { if (i < 511) argv[i] = p; p += strlen(p) + 1; }
  if (argc > 511) argc = 511;
  int envc = atoi(p); p += strlen(p) + 1;
  char *env0 = p;
  for (int i = 0; i < envc; i++) p += strlen(p) + 1;
  char *js = p;

  int k = new_child(proc);
  struct child *c = &S->c[k];
  c->fd0 = fds[0]; c->fd1 = fds[1]; c->fd2 = fds[2]; c->jr = fds[3]; c->jw = fds[4];
  c->state = C_RUNNING;
  c->pgid = own ? c->vpid : S->p[proc].vpid;
  snprintf(c->cwd, sizeof c->cwd, "%s", cwd);
  const char *cmd = argc > 1 ? argv[1] : "";
  u64 rs = mix(mix(S->seed_behav, 1), S->rng_misc); // only for schedule-like choices
  S->rpc_arg = c->vpid;
  if (!strcmp(cmd, "locate-project") || !strcmp(cmd, "metadata")) {
    c->phase = -1;
    c->exit_at = S->now + range(&rs, 1, 20) * MS;
    int fail = meta_fail == 1 && !strcmp(cmd, "locate-project") ? 1 : meta_fail == 2 && !strcmp(cmd, "metadata") ? 1 : 0;
    if (fail) { wrs(c->fd2, "error: simulated %s failure\n", cmd); c->status = 101 << 8; }
    else if (!strcmp(cmd, "metadata")) {
      char f[600];
      snprintf(f, sizeof f, "%s/metadata.json", ctl);
      size_t n = 0;
      char *b = slurp(AT_FDCWD, f, &n);
      if (b) wr(c->fd1, b, n);
      free(b);
    } else {
      int wsflag = 0;
      for (int i = 2; i < argc; i++) if (!strcmp(argv[i], "--workspace")) wsflag = 1;
      char d[600], t[700];
      if (wsflag) snprintf(d, sizeof d, "%s", S->ws);
      else {
        snprintf(d, sizeof d, "%s", cwd);
        for (;;) {
          snprintf(t, sizeof t, "%s/Cargo.toml", d);
          if (access(t, F_OK) == 0) break;
          char *q = strrchr(d, '/');
          if (!q || q == d) { snprintf(d, sizeof d, "%s", S->ws); break; }
          *q = 0;
        }
      }
      wrs(c->fd1, "{\"root\":\"%s/Cargo.toml\"}\n", d);
    }
    // cargo itself closes its output when it exits; close now so readers see EOF
    close(c->fd1); close(c->fd2); close(c->fd0);
    c->fd0 = c->fd1 = c->fd2 = -1;
    sim_trace(S, "CHILD p=%d c=%d pg=%d phase=meta cwd=%s cmd=%s", proc, c->vpid, c->pgid, np(cwd), cmd);
    recalc_child_ev(S);
    return;
  }
  // build / test / check
  int ph = -1;
  if (!strcmp(cmd, "check")) ph = 2;
  else if (!strcmp(cmd, "test") || !strcmp(cmd, "nextest")) {
    ph = 1;
    for (int i = 2; i < argc && strcmp(argv[i], "--"); i++) if (!strcmp(argv[i], "--no-run")) ph = 0;
  } else if (!strcmp(cmd, "build")) ph = 0;
  c->phase = ph;
  S->p[proc].nchild++;
  int snap = snapshot(cwd);
  c->snap = snap;
  if (watch_src) sim_trace(S, "WS %d", snapshot(S->ws));
  u64 key = src_key(cwd);
  int pristine = key == pristine_key;
  u64 bs = mix(mix(S->seed_behav, key), 1000 + ph + (flaky ? 16 * (S->p[proc].nchild + 64 * proc) : 0));
  rng_next(&bs);
  int verdict = 0;
  if (ph >= 0) {
    if (pristine) verdict = base_beh[ph];
    else {
      u64 r = rng_below(&bs, 1000), acc = 0;
      for (int i = 0; i < 4; i++) { acc += beh[ph][i]; if (r < acc) { verdict = i; break; } }
    }
  }
  u64 d = pristine ? logrange(&bs, bdur_lo, bdur_hi) : logrange(&bs, dur_lo, dur_hi);
  if (!pristine && near_ms && rng_below(&bs, 100) < (u64)near_pct) {
    i64 delta = (i64)rng_below(&bs, 2001) - 1000;
    i64 dd = (i64)near_ms + delta;
    if (dd > 1) d = dd;
  }
  if (pristine && ph >= 0) based[ph] = d;
  if (!pristine && ph >= 0 && ph < 2 && based[ph] && (ph ? nmul_t : nmul_b) && rng_below(&bs, 100) < 60) {
    u64 m = based[ph] * (ph ? nmul_t : nmul_b) / 1000;
    d = m * (70 + rng_below(&bs, 60)) / 100;
    if (!d) d = 1;
  }
  c->exit_at = S->now + d * MS + rng_below(&bs, MS);
  if (verdict == 1) {
    static const int codes[] = { 101, 1, 2, 4, 100, 3, 255 };
    c->status = (failcode ? failcode : codes[rng_below(&bs, 7)]) << 8;
  } else if (verdict == 2) {
    static const int sigs[] = { SIGSEGV, SIGKILL, SIGABRT, SIGTERM };
    c->status = sigs[rng_below(&bs, 4)];
  } else if (verdict == 3) { c->hang = 1; c->exit_at = INF; }
  wrs(c->fd1, "SIMTOKEN %d begin\n", c->vpid);
  wrs(c->fd2, "SIMTOKEN %d stderr\n", c->vpid);
  if (noise_pct && (int)rng_below(&bs, 100) < noise_pct) {
    int n = 1 + rng_below(&bs, 4);
    for (int i = 0; i < n; i++) {
      char nb[2000];
      size_t m = 0, want = rng_below(&bs, rng_below(&bs, 4) ? 60 : 1900);
      int bin = rng_below(&bs, 4) == 0;
      while (m < want) nb[m++] = bin ? (char)(1 + rng_below(&bs, 255)) : (char)(32 + rng_below(&bs, 95));
      if (!bin && m > 6) memcpy(nb, "\xe6\xbc\xa2 ", 4);
      wr(i & 1 ? c->fd2 : c->fd1, nb, m);
      if (rng_below(&bs, 8)) wr(i & 1 ? c->fd2 : c->fd1, "\n", 1);
    }
    wr(c->fd1, "\n", 1);
  }
  int jsino = -1, jstok = -1;
  static unsigned long first_ino[MAXP];
  static int js_n[MAXP]; // distinct pipes seen per process
  if (c->jr >= 0) {
    struct stat st;
    fstat(c->jr, &st);
    if (!first_ino[proc]) first_ino[proc] = st.st_ino;
    if (first_ino[proc] != st.st_ino) { js_n[proc]++; jsino = js_n[proc]; } else jsino = 0;
    int avail = 0;
    ioctl(c->jr, FIONREAD, &avail);
    int held = 0;
    for (int i = S->first_live; i < S->nchild; i++) if (S->c[i].proc == proc && S->c[i].state == C_RUNNING) held += S->c[i].tokens;
    jstok = avail + held;
    if (avail > 0 && rng_below(&rs, 100) < (u64)tok_pct) {
      int want = 1 + rng_below(&rs, avail);
      char tb[256];
      ssize_t got = read(c->jr, tb, want > 256 ? 256 : want);
      if (got > 0) c->tokens = got;
    }
  }
  char line[3000] = "";
  size_t ln = 0;
  for (int i = 1; i < argc && ln < sizeof line - 300; i++) ln += snprintf(line + ln, sizeof line - ln, "|%.280s", argv[i]);
  char ev[700] = "";
  size_t en = 0;
  p = env0;
  for (int i = 0; i < envc; i++) {
    if (!strncmp(p, "INSTA_", 6) || !strncmp(p, "CARGO_ENCODED_RUSTFLAGS", 23) || !strncmp(p, "RUSTFLAGS", 9) || !strncmp(p, "SIMENV", 6))
      if (en < sizeof ev - 200) en += snprintf(ev + en, sizeof ev - en, "|%.180s", p);
    p += strlen(p) + 1;
  }
  for (char *q = ev; *q; q++) if (*q == ' ') *q = '~'; else if (*q == '\x1f') *q = '^';
  for (char *q = line; *q; q++) if (*q == ' ' || *q == '\n') *q = '~';
  static const char *phn[] = { "build", "test", "check" };
  static const char *vn[] = { "ok", "fail", "sig", "hang" };
  c->stubborn = stubborn_pct && (int)rng_below(&bs, 100) < stubborn_pct;
  int grand = own && grand_pct && (int)rng_below(&bs, 100) < grand_pct;
  sim_trace(S, "CHILD p=%d c=%d pg=%d phase=%s cwd=%s snap=%d pristine=%d v=%s st=%d dur=%lld stubborn=%d js=%s jsino=%d jstok=%d env=%s argv=%s", proc, c->vpid, c->pgid,
            ph < 0 ? "unknown" : phn[ph], np(cwd), snap, pristine, vn[verdict], c->status,
            c->exit_at == INF ? -1LL : (long long)((c->exit_at - S->now) / 1000), c->stubborn, js, jsino, jstok, ev, line);
  if ((int)rng_below(&bs, 100) < mk_target_pct) {
    char t[700];
    snprintf(t, sizeof t, "%s/target", cwd); mkdir(t, 0755);
    snprintf(t, sizeof t, "%s/target/sim.%d", cwd, c->vpid);
    int fd = open(t, O_WRONLY | O_CREAT, 0644);
    if (fd >= 0) { wr(fd, "artifact\n", 9); close(fd); }
  }
  if (grand) { // e.g. the test binary, in the same process group
    int g = new_child(proc);
    S->c[g].state = C_RUNNING;
    S->c[g].is_grand = 1;
    S->c[g].leader = k;
    S->c[g].pgid = c->pgid;
    u64 x = rng_below(&bs, 3);
    S->c[g].exit_at = c->hang ? INF : x == 0 ? c->exit_at : S->now + d * MS / 2;
    sim_trace(S, "GRAND c=%d pg=%d of=%d", S->c[g].vpid, S->c[g].pgid, c->vpid);
  }
  // faults triggered relative to the nth child
  for (int i = 0; i < S->nfault; i++) {
    struct fault *f = &S->fault[i];
    if (f->trig == TR_CHILD && (f->proc < 0 || f->proc == proc) && ++f->seen == f->nth) {
      f->trig = TR_TIME;
      f->proc = proc;
      f->at += S->now;
    }
  }
  recalc_child_ev(S);
}

static void wake_proc(int proc, int kind, u64 key, int usekey) {
  for (int i = 1; i < S->ntask; i++)
    if (S->t[i].proc == proc && S->t[i].state == T_BLOCK && S->t[i].blk == kind && (!usekey || S->t[i].key == key)) S->t[i].state = T_RUN;
}

static void end_child(int k) {
  struct child *c = &S->c[k];
  c->died = S->now;
  if (c->killed_sig) c->status = c->killed_sig;
  c->state = c->is_grand ? C_REAPED : C_ZOMBIE;
  int snap2 = -2;
  if (!c->is_grand && c->phase >= 0) {
    snap2 = snapshot(c->cwd);
    if (watch_src) sim_trace(S, "WS %d", snapshot(S->ws));
    if (c->fd1 >= 0) wrs(c->fd1, "SIMTOKEN %d end\n", c->vpid);
  }
  if (c->tokens && c->jw >= 0) { for (int i = 0; i < c->tokens; i++) wr(c->jw, "+", 1); c->tokens = 0; }
  int *f[] = { &c->fd0, &c->fd1, &c->fd2, &c->jr, &c->jw };
  for (int i = 0; i < 5; i++) if (*f[i] >= 0) { close(*f[i]); *f[i] = -1; }
  sim_trace(S, "CHILDEND p=%d c=%d grand=%d st=%d killed=%d snap=%d", c->proc, c->vpid, c->is_grand, c->status, c->killed_sig, snap2);
  wake_proc(c->proc, B_CHILD, k, 1);
  wake_proc(c->proc, B_FD, 0, 0);
  recalc_child_ev(S);
}

// ------------------------------------------------------------- processes
static void *waiter(void *u) {
  (void)u;
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == ECHILD) { usleep(200); continue; } continue; }
    for (int i = 0; i < S->nproc; i++)
      if (S->p[i].rpid == p && S->p[i].state == P_LIVE) {
        dead_status[i] = st;
        __atomic_store_n(&dead_flag[i], 1, __ATOMIC_SEQ_CST);
        if (S->cur > 0 && S->t[S->cur].proc == i) give(S, 0);
        else if (!S->ending) sim_trace(S, "HARNESS process %d died without the baton", i);
      }
  }
  return NULL;
}

static void launch(int i) {
  struct proc *P = &S->p[i];
  P->state = P_LIVE;
  P->started = S->now;
  P->vpid = 4000 + i;
  int t = S->ntask++;
  if (t >= MAXT) die("too many tasks");
  memset(&S->t[t], 0, sizeof S->t[t]);
  S->t[t].state = T_RUN;
  S->t[t].proc = i;
  S->t[t].wake = INF;
  S->t[t].is_main = 1;
  P->main_task = t;
  char out[600], err[600];
  snprintf(out, sizeof out, "%s/stdout.%d", ctl, i);
  snprintf(err, sizeof err, "%s/stderr.%d", ctl, i);
  pid_t pid = fork();
  if (pid < 0) die("fork");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // whatever we were started with (a shell ignores SIGINT for commands in the background)
    for (int k = 1; k < 32; k++) if (k != SIGPIPE) signal(k, SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, NULL);
    personality(ADDR_NO_RANDOMIZE);
    int o = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), e = open(err, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), n = open("/dev/null", O_RDONLY);
    dup2(n, 0); dup2(o, 1); dup2(e, 2);
    close(n); close(o); close(e);
    if (chdir(pd[i].cwd)) _exit(95);
    char *env[80], a[600], b[64], c[64], d[700];
    int k = 0;
    for (int j = 0; j < nenv; j++) env[k++] = envs[j];
    snprintf(a, sizeof a, "SIM_SHM=%s", shm_path); env[k++] = a;
    snprintf(b, sizeof b, "SIM_PROC=%d", i); env[k++] = b;
    snprintf(c, sizeof c, "SIM_SOCK=%d", sock[1]); env[k++] = c;
    snprintf(d, sizeof d, "LD_PRELOAD=%s", shim); env[k++] = d;
    env[k] = NULL;
    execve(binary, pd[i].argv, env);
    _exit(94);
  }
  P->rpid = pid;
  sim_trace(S, "PROC %d start", i);
}

static void proc_dead(int i) {
  struct proc *P = &S->p[i];
  P->state = P_DEAD;
  P->status = dead_status[i];
  P->ended = S->now;
  for (int t = 1; t < S->ntask; t++) if (S->t[t].proc == i && S->t[t].state != T_FREE) { S->t[t].state = T_DEAD; S->t[t].go = 0; }
  sim_trace(S, "EXIT %d code=%d sig=%d", i, WIFEXITED(P->status) ? WEXITSTATUS(P->status) : -1, WIFSIGNALED(P->status) ? WTERMSIG(P->status) : 0);
  for (int k = S->first_live; k < S->nchild; k++)
    if (S->c[k].proc == i && S->c[k].state == C_RUNNING)
      sim_trace(S, "ORPHAN p=%d c=%d pg=%d grand=%d phase=%d killed=%d", i, S->c[k].vpid, S->c[k].pgid, S->c[k].is_grand, S->c[k].phase, S->c[k].killed_sig);
}

static void on_alarm(int s) {
  (void)s;
  static const char m[] = "simctl: wall-clock watchdog\n";
  if (write(2, m, sizeof m - 1)) {}
  for (int i = 0; i < S->nproc; i++) if (S->p[i].rpid > 0) kill(S->p[i].rpid, SIGKILL);
  int fd = open("/dev/null", O_RDONLY);
  (void)fd;
  unlink(shm_path);
  _exit(4);
}

static int cmp_range(const void *a, const void *b) {
  u32 x = *(const u32 *)a, y = *(const u32 *)b;
  return x < y ? -1 : x > y;
}
// beside this program: where the program under test synchronises its threads (see build.sh)
static void read_syncmap(void) {
  char p[600];
  ssize_t n = readlink("/proc/self/exe", p, sizeof p - 16);
  if (n < 0) return;
  p[n] = 0;
  strcpy(strrchr(p, '/') + 1, "syncmap");
  FILE *f = fopen(p, "r");
  if (!f) return;
  unsigned long long a, l;
  while (S->nsync < sizeof S->sync / 8 && fscanf(f, "%llx %llx", &a, &l) == 2) {
    S->sync[2 * S->nsync] = a;
    S->sync[2 * S->nsync + 1] = a + l;
    S->nsync++;
  }
  fclose(f);
  qsort(S->sync, S->nsync, 8, cmp_range);
}

static void finish(int code) {
  S->ending = 1;
  for (int i = 0; i < S->nproc; i++) if (S->p[i].state == P_LIVE && !dead_flag[i]) kill(S->p[i].rpid, SIGKILL);
  char p[600];
  snprintf(p, sizeof p, "%s/trace", ctl);
  FILE *f = fopen(p, "w");
  fwrite(S->trace, 1, S->trace_len, f);
  fclose(f);
  snprintf(p, sizeof p, "%s/cov", ctl);
  f = fopen(p, "w");
  for (u32 i = 0; i < COV_CAP; i++) S->cov[i] &= 1;
  fwrite(S->cov, 1, COV_CAP, f);
  fclose(f);
  snprintf(p, sizeof p, "%s/sched", ctl);
  f = fopen(p, "w");
  for (u32 i = 0; i < S->nsw; i++) fprintf(f, "%llu %d\n", (unsigned long long)S->sw[i].point, S->sw[i].task);
  fclose(f);
  u64 th = hash_bytes(0xcbf29ce484222325ull, S->trace, S->trace_len);
  snprintf(p, sizeof p, "%s/stats", ctl);
  f = fopen(p, "w");
  fprintf(f, "vtime %llu\nyields %llu\nedges %llu\nswitches %llu\npreempts %llu\npoints %llu\nhash %016llx\nilhash %016llx\ntracehash %016llx\nlimit %d\nnsw %u\nswoverflow %u\nshort %llu\nspurious %llu\nstall %llu\nstall_ns %llu\nfired %llu\nchildren %d\ntracefull %d\nsnaps %d\n",
          (unsigned long long)S->now, (unsigned long long)S->yields, (unsigned long long)S->edges, (unsigned long long)S->switches,
          (unsigned long long)S->preempts, (unsigned long long)S->points, (unsigned long long)S->hash, (unsigned long long)S->il_hash,
          (unsigned long long)th, S->limit, S->nsw, S->sw_overflow, (unsigned long long)S->nshort, (unsigned long long)S->nspur, (unsigned long long)S->nstall, (unsigned long long)S->stall_ns,
          (unsigned long long)S->nfired, S->nchild, S->trace_full, nsnaps);
  static const char *opn[] = {
#define X(a) #a,
    OPS(X)
#undef X
  };
  for (int i = 0; i < OP_N; i++) fprintf(f, "op.%s %llu\n", opn[i], (unsigned long long)S->opcount[i]);
  for (int i = 0; i < S->nfault; i++) fprintf(f, "fault.%d %d\n", i, S->fault[i].fired);
  fclose(f);
  unlink(shm_path);
  _exit(code);
}

// ------------------------------------------------------------- plan
static u64 opmask(const char *s) {
  static const char *opn[] = {
#define X(a) #a,
    OPS(X)
#undef X
  };
  if (!strcmp(s, "*")) return ~0ull;
  u64 m = 0;
  char b[512];
  snprintf(b, sizeof b, "%s", s);
  for (char *t = strtok(b, ","); t; t = strtok(NULL, ",")) {
    int ok = 0;
    for (int i = 0; i < OP_N; i++) if (!strcmp(t, opn[i])) { m |= 1ull << i; ok = 1; }
    if (!ok) { fprintf(stderr, "bad op %s\n", t); exit(3); }
  }
  return m;
}
static u32 clmask(const char *s) {
  static const char *n[] = { "OTHER", "OUTDIR", "TMP", "SRC", "STD", "DBG", "LIST", "JSON", "LOG" };
  if (!strcmp(s, "*")) return ~0u;
  u32 m = 0;
  char b[512];
  snprintf(b, sizeof b, "%s", s);
  for (char *t = strtok(b, ","); t; t = strtok(NULL, ",")) {
    if (!strcmp(t, "OUT")) m |= 1u << CL_OUT | 1u << CL_LIST | 1u << CL_JSON | 1u << CL_LOG; // not debug.log, which is written all the time
    for (int i = 0; i < CL_N; i++) if (!strcmp(t, n[i])) m |= 1u << i;
  }
  return m;
}

static void read_plan(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) die("open plan");
  static char line[65536];
  int curp = -1;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    char *v = strchr(line, ' ');
    if (v) *v++ = 0; else v = "";
    char *k = line;
#define U(name) else if (!strcmp(k, #name)) S->name = strtoull(v, NULL, 0)
#define G(name) else if (!strcmp(k, #name)) name = strtoull(v, NULL, 0)
    if (!*k || *k == '#') continue;
    else if (!strcmp(k, "root")) { snprintf(S->root, sizeof S->root, "%s", v); S->rootlen = strlen(v); }
    else if (!strcmp(k, "ws")) snprintf(S->ws, sizeof S->ws, "%s", v);
    else if (!strcmp(k, "ctl")) ctl = strdup(v);
    else if (!strcmp(k, "binary")) binary = strdup(v);
    else if (!strcmp(k, "shim")) shim = strdup(v);
    else if (!strcmp(k, "cpu")) { cpu_set_t m; CPU_ZERO(&m); CPU_SET(atoi(v), &m); sched_setaffinity(0, sizeof m, &m); }
    U(seed_sched); U(seed_misc); U(seed_behav); U(p_switch); U(edge_mean); U(edge_burst); U(op_cost_max); U(p_stall);
    U(p_estall); U(p_sstall); U(tty); U(estall_max);
    U(stall_max); U(p_short); U(p_spurious); U(readdir_shuffle); U(ncpus); U(cfr_mode); U(rt_off); U(max_vtime);
    U(max_points); U(explicit_sched); U(term_delay_max); U(now);
    G(dur_lo); G(dur_hi); G(bdur_lo); G(bdur_hi); G(near_ms); G(near_pct); G(nmul_b); G(nmul_t); G(grand_pct); G(mk_target_pct); G(meta_fail);
    G(tok_pct); G(noise_pct); G(stubborn_pct); G(flaky); G(failcode); G(wall_s); G(watch_src);
    else if (!strcmp(k, "beh")) { int p, a, b, c, d; if (sscanf(v, "%d %d %d %d %d", &p, &a, &b, &c, &d) == 5) { beh[p][0] = a; beh[p][1] = b; beh[p][2] = c; beh[p][3] = d; } }
    else if (!strcmp(k, "base")) { if (sscanf(v, "%d %d %d", &base_beh[0], &base_beh[1], &base_beh[2]) != 3) die("base"); }
    else if (!strcmp(k, "srcfile")) { if (nsrc < MAXSRC) srcs[nsrc++] = strdup(v); }
    else if (!strcmp(k, "env")) envs[nenv++] = strdup(v);
    else if (!strcmp(k, "proc")) {
      curp = S->nproc++;
      if (curp >= MAXP) die("too many procs");
      struct proc *P = &S->p[curp];
      P->state = P_WAITING;
      long long at; int after;
      if (sscanf(v, "%d %lld %500s", &after, &at, pd[curp].cwd) != 3) die("proc line");
      P->start_after = after; P->start_at = at;
    } else if (!strcmp(k, "arg")) { pd[curp].argv[pd[curp].argc++] = strdup(v); }
    else if (!strcmp(k, "sw")) { unsigned long long pt; int t; if (sscanf(v, "%llu %d", &pt, &t) == 2 && S->nsw < MAXSW) { S->sw[S->nsw].point = pt; S->sw[S->nsw++].task = t; } }
    else if (!strcmp(k, "fault")) {
      struct fault *F = &S->fault[S->nfault++];
      if (S->nfault > MAXFAULT) die("too many faults");
      F->proc = -1; F->clmask = ~0u; F->nth = 1;
      for (char *t = strtok(v, " "); t;) {
        char *e = strchr(t, '=');
        *e++ = 0;
        char tn[64], tv[400];
        snprintf(tn, sizeof tn, "%s", t);
        snprintf(tv, sizeof tv, "%s", e);
        char *next = e + strlen(e);
        // strtok state is clobbered by the mask parsers: continue manually
        char *rest = next < v + 60000 && *(next) == 0 ? next + 1 : NULL;
        if (!strcmp(tn, "kind")) F->kind = atoi(tv);
        else if (!strcmp(tn, "err")) F->err = atoi(tv);
        else if (!strcmp(tn, "proc")) F->proc = atoi(tv);
        else if (!strcmp(tn, "ops")) F->opmask = opmask(tv);
        else if (!strcmp(tn, "cls")) F->clmask = clmask(tv);
        else if (!strcmp(tn, "trig")) F->trig = !strcmp(tv, "nth") ? TR_NTH : !strcmp(tv, "time") ? TR_TIME : !strcmp(tv, "sig") ? TR_SIG : TR_CHILD;
        else if (!strcmp(tn, "nth")) F->nth = strtoull(tv, NULL, 0);
        else if (!strcmp(tn, "persist")) F->persist = strtoull(tv, NULL, 0);
        else if (!strcmp(tn, "at")) F->at = strtoull(tv, NULL, 0);
        else if (!strcmp(tn, "amount")) F->amount = strtoll(tv, NULL, 0);
        else if (!strcmp(tn, "substr")) snprintf(F->substr, sizeof F->substr, "%s", tv);
        if (!rest || !*rest) break;
        t = rest;
        char *sp = strchr(t, ' ');
        if (sp) *sp = 0;
      }
    } else { fprintf(stderr, "simctl: unknown plan key %s\n", k); exit(3); }
    memset(line + strlen(line), 0, 2);
  }
  fclose(f);
}

int main(int argc, char **argv) {
  if (argc != 3) { fprintf(stderr, "usage: simctl PLAN SHMFILE\n"); return 3; }
  snprintf(shm_path, sizeof shm_path, "%s", argv[2]);
  int fd = open(shm_path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0 || ftruncate(fd, sizeof(struct shm))) die("shm");
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED) die("mmap");
  close(fd);
  S->magic = 0x51A1C0DE;
  S->now = 1000 * SEC;
  S->rt_off = 1700000000ll * (i64)SEC;
  S->ncpus = 4;
  S->max_vtime = 1000000 * SEC;
  S->max_points = 400000000;
  S->op_cost_max = 20000;
  S->next_vpid = 10001;
  S->ntask = 1;
  S->t[0].state = T_BLOCK;
  S->t[0].proc = -1;
  S->next_child_ev = INF;
  for (int i = 0; i < 3; i++) beh[i][0] = 1000;
  read_plan(argv[1]);
  if (S->p_sstall) read_syncmap();
  S->rng_sched = mix(S->seed_sched, 11);
  S->rng_misc = mix(S->seed_misc, 12);
  S->edge_left = S->edge_mean ? S->edge_mean : 0;
  for (int i = 0; i < S->nproc; i++) { if (S->p[i].start_after < 0) S->p[i].start_at += S->now; }
  for (int i = 0; i < S->nfault; i++) if (S->fault[i].trig == TR_TIME) S->fault[i].at += S->now;
  char p[600];
  snprintf(p, sizeof p, "%s/snaps", ctl);
  snapf = fopen(p, "w");
  if (!snapf) die("snaps");
  snprintf(p, sizeof p, "%s/blobs", ctl);
  mkdir(p, 0755);
  pristine_key = src_key(S->ws);
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_DGRAM, 0, sv)) die("socketpair");
  sock[0] = fcntl(sv[0], F_DUPFD_CLOEXEC, 900);
  sock[1] = fcntl(sv[1], F_DUPFD, 901);
  if (sock[0] < 0 || sock[1] < 0) die("dup high fds");
  close(sv[0]); close(sv[1]);
  signal(SIGALRM, on_alarm);
  alarm(wall_s);
  S->cur = 0;
  pthread_t th;
  pthread_create(&th, NULL, waiter, NULL);

  for (;;) {
    // holding the baton
    if (S->rpc_req) {
      int from = -1;
      for (int i = 1; i < S->ntask; i++) if (S->t[i].state == T_BLOCK && S->t[i].blk == B_CTL) from = i;
      S->rpc_req = 0;
      start_child(S->t[from].proc, S->rpc_arg);
      S->t[from].state = T_RUN;
      give(S, from);
      take(S, 0);
      S->cur = 0;
      continue;
    }
    int ended = 0;
    for (int i = 0; i < S->nproc; i++)
      if (S->p[i].state == P_LIVE && __atomic_load_n(&dead_flag[i], __ATOMIC_SEQ_CST)) { proc_dead(i); ended = 1; }
    (void)ended;
    if (S->limit) {
      sim_trace(S, "LIMIT %d", S->limit);
      for (int i = 1; i < S->ntask; i++)
        if (S->t[i].state == T_RUN || S->t[i].state == T_BLOCK)
          sim_trace(S, "STUCK task=%d p=%d state=%d blk=%d", i, S->t[i].proc, S->t[i].state, S->t[i].blk);
      finish(2);
    }
    for (;;) { // children whose time has come, earliest first
      int k = -1;
      for (int i = S->first_live; i < S->nchild; i++)
        if (S->c[i].state == C_RUNNING && S->c[i].exit_at <= S->now && (k < 0 || S->c[i].exit_at < S->c[k].exit_at)) k = i;
      if (k < 0) break;
      end_child(k);
    }
    for (int i = 0; i < S->nproc; i++)
      if (S->p[i].state == P_WAITING) {
        int a = S->p[i].start_after;
        if (a >= 0 && S->p[a].state != P_DEAD) continue;
        u64 w = S->p[i].start_at + (a >= 0 ? S->p[a].ended : 0);
        if (w <= S->now) launch(i);
      }
    for (int i = 0; i < S->nfault; i++) {
      struct fault *F = &S->fault[i];
      if (F->trig != TR_TIME || F->fired || F->at > S->now) continue;
      F->fired = 1;
      S->nfired++;
      sim_trace(S, "FAULT %d kind=%d proc=%d op=-1 path=- val=%d", i, F->kind, F->proc, F->err);
      if (F->kind == F_RTJUMP) S->rt_off += F->amount;
      if (F->kind == F_SIGNAL) {
        int pr = F->proc < 0 ? 0 : F->proc;
        if (S->p[pr].state == P_LIVE) {
          S->p[pr].pending |= 1u << F->err;
          // make one blocked thread of the process run so that it takes the signal
          int cand[MAXT], n = 0, anyrun = 0;
          for (int t = 1; t < S->ntask; t++) {
            if (S->t[t].proc != pr) continue;
            if (S->t[t].state == T_BLOCK) cand[n++] = t;
            if (S->t[t].state == T_RUN) anyrun = 1;
          }
          if (n && (!anyrun || rng_below(&S->rng_misc, 2))) S->t[cand[rng_below(&S->rng_misc, n)]].state = T_RUN;
        }
      }
    }
    int live = 0;
    for (int i = 0; i < S->nproc; i++) if (S->p[i].state == P_LIVE || S->p[i].state == P_WAITING) live++;
    if (!live) finish(0);
    S->t[0].state = T_BLOCK;
    int n = sched_pick(S, -1, 1);
    if (n == 0) continue;
    give(S, n);
    take(S, 0);
    S->cur = 0;
  }
}
