/* Controlled scheduler: runs several real processes on a ring, one at a time,
 * switching between them at every libc call of the library that can be seen by
 * others, at every access to the ring's memory made without holding the lock and
 * (deep mode) at every access at all. Records histories of calls and returns.
 *
 * usage: conc SCENARIOS OUT DIR
 *
 * scenario:  T id mode seed runs deep crash
 *              mode  r random walk, p priorities with change points, d depth first with
 *                    bounded preemptions
 *              deep for r and p: 0 no switches at memory accesses under the lock, 1 at most, 3 at every one, 4 at the victim's,
 *                   2 sometimes; for d: number of preemptions, plus 10 for all accesses
 *              crash 0 none, 1 one process is killed at a random point, 2.. w+2: process w is
 *                    killed at its 1st, 2nd, .. switching point, one run each
 *            W phase      starts a process; its operations follow, one per line
 *            K            processes of earlier phases are killed before the next phase
 *            N            waiters' socket names recur as soon as they are free
 * A phase starts when nothing can proceed any more in the phases before. */
#define _GNU_SOURCE
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <semaphore.h>
#include <sched.h>
#include <ucontext.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <poll.h>
#include <time.h>
#include "wrap.h"
#include "ops.h"

#define MAXW 80
#define LOGSZ (8UL << 20)
#define MAXSTEPS 60000
#define CHOICES 60000

enum { S_NEW, S_RUN, S_LOCK, S_WAIT, S_DONE, S_DEAD, S_EXIT };
struct wk { sem_t go; int st; pid_t pid; int phase; unsigned epoch; int yields; int pending, obs, reaped; };
static struct shared {
  sem_t back; struct wk w[MAXW]; unsigned seq; unsigned epoch; int deep; int killed_in; int pv[8];
  size_t n; int nev; int open_call[MAXW];
  /* the scheduler's state: decisions are taken by whichever process is at a switching point */
  uint64_t rs; int phase, nw, cur, steps, stick, preempt, bound, stuck, crash_w, crash_at, nch, fixed, nchg, chg[8], prio[MAXW];
  char mode; unsigned char choice[CHOICES + 1], nchoice[CHOICES + 1];
  char log[];
} *sh;
static int me = -1;
static char **wlines[MAXW]; static int nwl[MAXW], nw, wphase[MAXW], killafter[64], maxphase;
int conc_evfd[8];

static void elog(const char *fmt, ...) {
  va_list ap; int k;
  va_start(ap, fmt);
  k = vsnprintf(sh->log + sh->n, LOGSZ - sh->n - sizeof *sh, fmt, ap);
  va_end(ap);
  if ((size_t)k >= LOGSZ - sh->n - sizeof *sh) _exit(78);
  sh->n += k;
}

/* ---- worker side ---- */
static struct { void *a; size_t len; } maps[600]; static int nmaps;
static int held; static ino_t held_ino;
static int stepping, opened, lazy;

static void protect(int on) {
  int i;
  for (i = 0; i < nmaps; i++) mprotect(maps[i].a, maps[i].len, on ? PROT_NONE : PROT_READ | PROT_WRITE);
  opened = !on;
}
static void relax(void) { int want = (held && !(sh->deep == 4 ? sh->crash_w == me : sh->deep)); if (want != opened) protect(!want); }

static uint32_t rnd(void) { uint64_t r = sh->rs; r ^= r << 13; r ^= r >> 7; r ^= r << 17; sh->rs = r; return (uint32_t)(r >> 16); }

/* who runs next: a process, or -1 nobody can, -2 the conductor has to act */
static int decide(void) {
  int cand[MAXW], nc = 0, k = -1, i, curok = 0, cur = sh->cur;
  if (sh->stuck) return -2;
  for (i = 0; i < sh->nw; i++) {
    struct wk *w = &sh->w[i];
    if (w->phase > sh->phase) continue;
    if (w->st == S_RUN || ((w->st == S_WAIT || w->st == S_LOCK) && w->epoch != sh->epoch)) { cand[nc++] = i; if (i == cur && w->st == S_RUN) curok = 1; }
  }
  if (nc == 0) return -1;
  if (sh->steps++ > MAXSTEPS) { elog("%s{\"k\":\"died\",\"p\":-1,\"status\":-2}", sh->nev++ ? "," : ""); sh->stuck = 1; return -2; }
  if (sh->mode == 'd') {
    /* option 0: continue with the current process; then the others in order */
    int opt[MAXW], no = 0, nopt;
    if (curok) opt[no++] = cur;
    for (i = 0; i < nc; i++) if (!(curok && cand[i] == cur)) opt[no++] = cand[i];
    nopt = (curok && sh->preempt >= sh->bound) ? 1 : no;
    if (nopt > 1 && sh->nch < CHOICES) {
      int ch = sh->nch < sh->fixed ? sh->choice[sh->nch] : 0;
      if (ch >= nopt) ch = nopt - 1;
      sh->choice[sh->nch] = ch; sh->nchoice[sh->nch] = nopt; sh->nch++;
      k = opt[ch];
    } else k = opt[0];
    if (curok && k != cur) sh->preempt++;
  } else if (sh->mode == 'p') {
    for (i = 0; i < sh->nchg; i++) if (sh->chg[i] == sh->steps && cur >= 0) sh->prio[cur] = i;
    for (i = 0; i < nc; i++) if (k < 0 || sh->prio[cand[i]] > sh->prio[k]) k = cand[i];
  } else {
    if (curok && rnd() % sh->stick) k = cur; else k = cand[rnd() % nc];
  }
  sh->cur = k;
  return k;
}

static int again;   /* probed once more in vain: nothing happened */
static void give(int st) {
  struct wk *w = &sh->w[me];
  int e = errno, k;
  w->st = st;
  w->yields++;
  if (!again) sh->epoch++;
  if (st == S_WAIT || st == S_LOCK) w->epoch = sh->epoch;
  k = (sh->crash_w == me && w->yields >= sh->crash_at && sh->phase > 0 && st != S_DONE) ? -2 : decide();
  if (k != me) {
    if (k >= 0) sem_post(&sh->w[k].go); else sem_post(&sh->back);
    while (sem_wait(&w->go) != 0) {}
  }
  w->st = S_RUN;
  errno = e;
}
static int inside;            /* in the library (an operation is running) */
static void on_yield(int kind, const char *what) {
  (void)what;
  if (!inside) return;
  if (lazy) { lazy = 0; relax(); }
  if (kind == Y_CALL || kind == Y_LOCK || kind == Y_UNLOCK || kind == Y_MEM) give(S_RUN);
}
static int on_wait(int (*probe)(void *), void *arg, const char *what) {
  (void)what;
  for (;;) { int ok; give(S_WAIT); ok = probe(arg); again = !ok; if (ok) return 1; }
}
int flock(int, int);
static int on_lock(int fd, int cmd, void *fl) {
  int rc;
  for (;; again = 1) {
    if (cmd <= -1000) rc = flock(fd, (-(cmd + 1000)) | 4);
    else rc = fcntl(fd, cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd, fl);
    if (rc == 0) { again = 0; return 0; }
    if (errno != EAGAIN && errno != EACCES) { again = 0; return -1; }
    if (cmd == F_SETLK || cmd == F_OFD_SETLK || (cmd <= -1000 && ((-(cmd + 1000)) & 4))) return -1;
    give(S_LOCK);
  }
}
static void on_lock_state(int fd, int st) {
  struct stat s;
  if (fstat(fd, &s) || !S_ISREG(s.st_mode)) return;
  if (st > 0) { held = 1; held_ino = s.st_ino; }
  else if (held && s.st_ino == held_ino) held = 0;
  relax();
}
static void on_map(void *a, size_t len, int fd, int add) {
  int i; (void)fd;
  len = (len + 4095) & ~4095UL;
  if (add) { if (nmaps < 600) { maps[nmaps].a = a; maps[nmaps++].len = len; } if (!opened) mprotect(a, len, PROT_NONE); }
  else for (i = 0; i < nmaps; i++) if (maps[i].a == a) { maps[i] = maps[--nmaps]; break; }
}
static void segv(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = uc; int i;
  for (i = 0; i < nmaps; i++) if ((char *)si->si_addr >= (char *)maps[i].a && (char *)si->si_addr < (char *)maps[i].a + maps[i].len) break;
  if (i == nmaps || opened) { signal(sig, SIG_DFL); return; }
  if (inside) give(S_RUN);
  protect(0);
  if (sh->mode != 'd' && sh->deep < 3 && (rnd() & 1)) { lazy = 1; return; }   /* no more switches until the next call */
  stepping = 1;
  u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void trap(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = uc; (void)sig; (void)si;
  if (!stepping) return;
  stepping = 0;
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  opened = 1; relax();
}
static int small_names; static unsigned name_base;
static int bind_small(int fd) {
  struct sockaddr_un a; unsigned k; char nm[16];
  for (k = 0; k < 4096; k++) {
    memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
    snprintf(nm, sizeof nm, "%05x", (name_base + k) & 0xfffff);
    memcpy(a.sun_path + 1, nm, 5);
    if (bind(fd, (struct sockaddr *)&a, sizeof(sa_family_t) + 6) == 0) return 0;
    if (errno != EADDRINUSE) return -1;
  }
  return -1;
}
static unsigned mycount;
static void worker(int k) {
  struct opbuf b; int i; struct sigaction sa;
  static char stack[1 << 16]; stack_t ss = {.ss_sp = stack, .ss_size = sizeof stack};
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = k;
  mycount = k * 100000; ops_seq = &mycount;   /* message contents do not depend on the schedule */
  memset(&b, 0, sizeof b);
  ops_reset();
  sigaltstack(&ss, NULL);
  memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK; sa.sa_sigaction = segv; sigaction(SIGSEGV, &sa, NULL);
  sa.sa_sigaction = trap; sigaction(SIGTRAP, &sa, NULL);
  yield_hook = on_yield; wait_hook = on_wait; lock_hook = on_lock; lock_state_hook = on_lock_state; map_hook = on_map;
  bind_hook = small_names ? bind_small : NULL;
  while (sem_wait(&sh->w[k].go) != 0) {}
  sh->w[k].st = S_RUN;
  for (i = 0; i < nwl[k]; i++) {
    if (i) give(S_RUN);
    if (!strncmp(wlines[k][i], "exit", 4)) { elog("%s{\"k\":\"crash\",\"p\":%d}", sh->nev++ ? "," : "", k); sh->w[k].st = S_EXIT; sem_post(&sh->back); _exit(0); }
    if (!op_prepare(wlines[k][i], &b) || op_skip()) continue;
    sh->w[k].pending = 1;
    elog("%s{\"k\":\"call\",\"p\":%d,%s}", sh->nev++ ? "," : "", k, b.a);
    give(S_RUN);
    inside = 1;
    op_execute(&b);
    inside = 0;
    if (lazy) { lazy = 0; relax(); }
    if (held) { elog(",{\"k\":\"held\",\"p\":%d}", k); sh->nev++; }
    elog(",{\"k\":\"ret\",\"p\":%d,%s}", k, b.r); sh->nev++;
    sh->w[k].pending = 0;
  }
  for (;;) {
    give(S_DONE);
    if (sh->w[k].obs) { ops_conc_obs(&b, k); if (b.rn) { elog("%s%s", sh->nev++ ? "," : "", b.r); } sh->w[k].obs = 0; }
  }
}

/* ---- conductor ---- */
/* let the chosen process (and those it hands over to) run until the conductor is needed */
static void let(int k) {
  struct timespec ts;
  sh->cur = k;
  sem_post(&sh->w[k].go);
  for (int tries = 0; ; tries++) {
    clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 40000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    if (sem_timedwait(&sh->back, &ts) == 0) break;
    k = sh->cur;
    { int st; pid_t p = k >= 0 ? waitpid(sh->w[k].pid, &st, WNOHANG) : 0;
      if (p > 0 && p == sh->w[k].pid) { sh->w[k].st = S_DEAD; sh->w[k].reaped = 1; elog("%s{\"k\":\"died\",\"p\":%d,\"status\":%d}", sh->nev++ ? "," : "", k, st); sh->stuck = 1; return; } }
    if (tries >= 500) { elog("%s{\"k\":\"died\",\"p\":%d,\"status\":-1}", sh->nev++ ? "," : "", k); sh->stuck = 1; return; }
  }
  for (k = 0; k < sh->nw; k++)
    if (sh->w[k].st == S_EXIT) { siginfo_t si; waitid(P_PID, sh->w[k].pid, &si, WEXITED | WNOWAIT); sh->w[k].st = S_DEAD; }
}
static void kill_worker(int k, int logit) {
  siginfo_t si;
  if (sh->w[k].st == S_DEAD) return;
  kill(sh->w[k].pid, SIGKILL);
  waitid(P_PID, sh->w[k].pid, &si, WEXITED | WNOWAIT);
  sh->w[k].st = S_DEAD;
  sh->epoch++;
  if (logit) elog("%s{\"k\":\"crash\",\"p\":%d}", sh->nev++ ? "," : "", k);
}

struct conf { char mode; unsigned long seed; int runs, deep, crash; };

static void run_once(struct conf *c, int crash_w, int crash_at, int zombie) {
  int phase, i;
  sh->n = 0; sh->nev = 0; sh->seq = 0; sh->epoch = 0; sh->killed_in = 0; sh->stuck = 0;
  sh->steps = 0; sh->preempt = 0; sh->cur = -1; sh->stick = 2 + rnd() % 12; sh->nw = nw; sh->mode = c->mode;
  sh->crash_w = crash_w; sh->crash_at = crash_at; sh->bound = c->deep % 10; sh->nch = 0;
  sem_init(&sh->back, 1, 0);
  sh->deep = c->mode == 'd' ? c->deep / 10 : c->deep == 2 ? (rnd() % 6 == 0) : c->deep;
  for (i = 0; i < 8; i++) { uint64_t v; if (read(conc_evfd[i], &v, 8) != 8) {} }
  for (i = 0; i < nw; i++) {
    memset(&sh->w[i], 0, sizeof sh->w[i]);
    sem_init(&sh->w[i].go, 1, 0);
    sh->w[i].phase = wphase[i];
    sh->prio[i] = rnd() % 1000 + 10;
  }
  sh->nchg = 3; for (i = 0; i < sh->nchg; i++) sh->chg[i] = rnd() % (rnd() & 1 ? 60 : 300);
  /* processes are created when their phase starts (after kills), so that pids and
   * inherited descriptors do not get in the way */
  for (phase = 0; phase <= maxphase && !sh->stuck; phase++) {
    sh->phase = phase;
    for (i = 0; i < nw; i++) if (wphase[i] == phase) {
      pid_t p = fork();
      if (p == 0) worker(i);
      sh->w[i].pid = p; sh->w[i].st = S_RUN;
    }
    sh->cur = -1;
    while (!sh->stuck) {
      int k = decide();
      if (k < 0) break;
      let(k);
      for (k = 0; k < nw; k++)
        if (sh->crash_w == k && sh->w[k].phase <= phase && phase > 0 && sh->w[k].yields >= sh->crash_at && sh->w[k].st != S_DONE && sh->w[k].st != S_DEAD) {
          kill_worker(k, 1);
          if (!zombie) { waitpid(sh->w[k].pid, NULL, 0); sh->w[k].reaped = 1; }
          sh->crash_w = -2; sh->killed_in = 1;
        }
      sh->cur = -1;
    }
    if (sh->stuck) break;
    /* nothing can proceed */
    elog("%s{\"k\":\"quiet\",\"b\":[", sh->nev++ ? "," : "");
    { int first = 1; for (i = 0; i < nw; i++) if (sh->w[i].phase <= phase && (sh->w[i].st == S_LOCK || sh->w[i].st == S_WAIT)) {
        elog("%s[%d,%d]", first ? "" : ",", i, sh->w[i].st == S_LOCK); first = 0; } }
    elog("]}");
    for (i = 0; i < nw && !sh->stuck; i++) if (sh->w[i].phase <= phase && sh->w[i].st == S_DONE) { sh->w[i].obs = 1; sh->stuck = 2; let(i); if (sh->stuck == 2) sh->stuck = 0; }
    if (phase < 64 && killafter[phase]) {
      for (i = 0; i < nw; i++) if (sh->w[i].phase <= phase && sh->w[i].st != S_DEAD) {
        kill_worker(i, 1);
        if (rnd() & 1) { waitpid(sh->w[i].pid, NULL, 0); sh->w[i].reaped = 1; }
      }
    }
  }
  for (i = 0; i < nw; i++) if (sh->w[i].pid > 0 && !sh->w[i].reaped) { kill(sh->w[i].pid, SIGKILL); waitpid(sh->w[i].pid, NULL, 0); }
  for (i = 0; i < MAXF; i++) unlink(ops_path(i));
}

static uint64_t hash(const char *p, size_t n) { uint64_t h = 1469598103934665603ULL; while (n--) { h ^= (unsigned char)*p++; h *= 1099511628211ULL; } return h; }
static uint64_t *seen; static int nseen; static size_t capseen;
static int is_new(uint64_t h) {
  size_t k, m;
  if (!h) h = 1;
  if (2 * (size_t)nseen >= capseen) {
    uint64_t *o = seen; size_t oc = capseen;
    capseen = capseen ? 2 * capseen : 4096; seen = calloc(capseen, sizeof *seen);
    for (m = 0; m < oc; m++) if (o[m]) { for (k = o[m] % capseen; seen[k]; k = (k + 1) % capseen) {} seen[k] = o[m]; }
    free(o);
  }
  for (k = h % capseen; seen[k]; k = (k + 1) % capseen) if (seen[k] == h) return 0;
  seen[k] = h; nseen++; return 1;
}

int main(int argc, char **argv) {
  FILE *in, *out; char *text; size_t len; struct stat st; char **lines; int nl = 0, i; long total = 0; time_t t0; long budget;
  if (argc < 4) return 2;
  in = fopen(argv[1], "r"); if (!in) return 2;
  fstat(fileno(in), &st); len = st.st_size; text = malloc(len + 1); if (fread(text, 1, len, in) != len) return 2; text[len] = 0; fclose(in);
  out = fopen(argv[2], "w"); if (!out) return 2;
  budget = argc > 4 ? atol(argv[4]) : 0;
  snprintf(ops_dir, PATH_MAX - 64, "%s", argv[3]);
  signal(SIGPIPE, SIG_IGN);
  if (!getenv("SEQ_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  lines = malloc(sizeof(char *) * (len / 2 + 2));
  { char *p = text, *l; while ((l = strsep(&p, "\n"))) lines[nl++] = l; }
  sh = mmap(0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ops_seq = &sh->seq;
  for (i = 0; i < 8; i++) conc_evfd[i] = eventfd(0, EFD_NONBLOCK);
  ops_use_evfd(conc_evfd);
  if (getenv("CONC_CPU")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(getenv("CONC_CPU")), &cs); sched_setaffinity(0, sizeof cs, &cs); }
  name_base = (unsigned)getpid() * 128; t0 = time(NULL);
  for (i = 0; i < nl; ) {
    char id[64]; struct conf c; int run, k; unsigned long emitted = 0;
    if (lines[i][0] != 'T') { i++; continue; }
    if (sscanf(lines[i], "T %63s %c %lu %d %d %d", id, &c.mode, &c.seed, &c.runs, &c.deep, &c.crash) != 6) return 3;
    nw = 0; maxphase = 0; small_names = 0; memset(nwl, 0, sizeof nwl); memset(killafter, 0, sizeof killafter);
    for (i++; i < nl && lines[i][0] != 'T'; i++) {
      if (lines[i][0] == 'W') { wphase[nw] = atoi(lines[i] + 2); if (wphase[nw] > maxphase) maxphase = wphase[nw];
        wlines[nw] = &lines[i + 1]; nw++; if (nw > MAXW) return 4; }
      else if (lines[i][0] == 'K') killafter[maxphase] = 1;
      else if (lines[i][0] == 'N') small_names = 1;
      else if (lines[i][0] && nw) nwl[nw - 1]++;
    }
    nseen = 0; sh->fixed = 0; if (seen) memset(seen, 0, capseen * sizeof *seen);
    ops_salt = 7;
    for (run = 0; run < c.runs; run++) {
      int cw = -1, ca = 0, zombie; char **save[MAXW];
      if (budget && time(NULL) - t0 > budget) break;
      sh->rs = (c.seed + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)(c.mode == 'd' ? 0 : run) * 0xD1B54A32D192ED03ULL; if (!sh->rs) sh->rs = 1;
      rnd(); rnd(); rnd();
      zombie = rnd() & 1;
      if (c.crash == 1) { do cw = rnd() % nw; while (wphase[cw] != 1); ca = 1 + rnd() % 70; }
      if (c.crash >= 2) { cw = c.crash - 2; ca = 1 + run; }
      /* op_prepare cuts up its line: give it copies */
      for (k = 0; k < nw; k++) { int j; save[k] = wlines[k]; wlines[k] = malloc(sizeof(char *) * (nwl[k] + 1));
        for (j = 0; j < nwl[k]; j++) wlines[k][j] = strdup(save[k][j]); }
      run_once(&c, cw, ca, zombie);
      for (k = 0; k < nw; k++) { int j; for (j = 0; j < nwl[k]; j++) free(wlines[k][j]); free(wlines[k]); wlines[k] = save[k]; }
      total++;
      if (is_new(hash(sh->log, sh->n))) {
        fprintf(out, "{\"id\":\"%s.%d\",\"ev\":[", id, run);
        fwrite(sh->log, 1, sh->n, out);
        fprintf(out, "]}\n"); emitted++;
      }
      if (c.crash >= 2 && !sh->killed_in) break;
      if (c.mode == 'd') {   /* next schedule */
        while (sh->nch > 0 && sh->choice[sh->nch - 1] + 1 >= sh->nchoice[sh->nch - 1]) sh->nch--;
        if (sh->nch == 0) { fprintf(out, "#complete %s\n", id); break; }
        sh->choice[sh->nch - 1]++; sh->fixed = sh->nch;
      }
    }
  }
  fprintf(out, "#runs %ld\n", total);
  fclose(out);
  return 0;
}
