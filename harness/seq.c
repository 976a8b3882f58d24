/* Sequential executor: runs scripts of calls, each trace in child processes, and
 * writes one JSON line per trace: {"id":..,"ev":[..]}.
 * usage: seq SCRIPT OUT DIR */
#define _GNU_SOURCE
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include "wrap.h"
#include "ops.h"

#define LOGSZ (256UL << 20)
static struct shared { size_t n; unsigned seq; int forced; char log[]; } *sh;
static int hfd;         /* to the lock observer */
static int forced;

static void observer(int fd) {
  char path[PATH_MAX]; ssize_t n;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  while ((n = read(fd, path, sizeof path - 1)) > 0) {
    int f; char ans = '0'; struct flock l = {.l_type = F_WRLCK, .l_whence = SEEK_SET};
    path[n] = 0;
    f = open(path, O_RDWR);
    if (f >= 0) { if (fcntl(f, F_GETLK, &l) == 0 && l.l_type != F_UNLCK) ans = '1'; close(f); }
    if (write(fd, &ans, 1) != 1) break;
  }
  _exit(0);
}
static int is_locked(const char *path) {
  char a = '0';
  if (write(hfd, path, strlen(path)) < 0 || read(hfd, &a, 1) != 1) return 0;
  return a == '1';
}
/* nothing is ready and nobody else will ever make it so */
static int on_wait(int (*probe)(void *), void *arg, const char *what) {
  if (!forced && ops_has_pf()) { forced = 1; ops_force_pf(); if (probe(arg)) return 1; }
  (void)what;
  _exit(76);   /* waits forever */
}
static void emit(const char *s, size_t n) {
  if (sh->n + n + 1 > LOGSZ - sizeof *sh) _exit(78);
  memcpy(sh->log + sh->n, s, n); sh->n += n;
}
static void emitz(const char *s) { emit(s, strlen(s)); }

/* run one segment in this (child) process */
static void run_segment(char **line, int n) {
  struct opbuf b; int i; char tmp[96];
  memset(&b, 0, sizeof b);
  ops_reset();
  wait_hook = on_wait;
  for (i = 0; i < n; i++) {
    int pf, lk = 0;
    if (!op_prepare(line[i], &b) || op_skip()) continue;
    pf = ops_pf_ready();
    forced = 0;
    w_fault_hit = 0; w_msync_failed = 0;
    alarm(ops_big() ? 400 : 20);
    op_execute(&b);
    ops_ready(&b);
    if (ops_cur_file() >= 0 && ops_inode_matches()) lk = is_locked(ops_path(ops_cur_file()));
    emitz(sh->n && sh->log[sh->n - 1] == '}' ? ",{" : "{");
    emit(b.a, b.an); emitz(","); emit(b.r, b.rn);
    snprintf(tmp, sizeof tmp, ",\"pf\":%d,\"blk\":%d,\"lk\":%d,\"inj\":%d,\"ms\":%d}", pf, forced, lk, w_fault_hit, w_msync_failed);
    emitz(tmp);
    alarm(0);
  }
}

static void rmfiles(const char *dir) {
  char cmd[PATH_MAX + 64]; int i;
  for (i = 0; i < MAXF; i++) unlink(ops_path(i));
  snprintf(cmd, sizeof cmd, "%s/disk.*", dir); /* shadows */
  { char c2[PATH_MAX + 128]; snprintf(c2, sizeof c2, "find '%s' -maxdepth 1 -name 'disk.*' -delete", dir); if (system(c2)) {} }
}

int main(int argc, char **argv) {
  FILE *in, *out; char *text; size_t len; struct stat st; char **lines; int nl = 0, i, sv[2], use_shadow = 0;
  if (argc < 4) return 2;
  in = fopen(argv[1], "r"); if (!in) return 2;
  fstat(fileno(in), &st); len = st.st_size; text = malloc(len + 1); if (fread(text, 1, len, in) != len) return 2; text[len] = 0; fclose(in);
  out = fopen(argv[2], "w"); if (!out) return 2;
  snprintf(ops_dir, PATH_MAX - 64, "%s", argv[3]);
  signal(SIGPIPE, SIG_IGN);
  if (!getenv("SEQ_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  lines = malloc(sizeof(char *) * (len / 2 + 2));
  { char *p = text, *l; while ((l = strsep(&p, "\n"))) lines[nl++] = l; }
  sh = mmap(0, LOGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ops_seq = &sh->seq;
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 2;
  if (fork() == 0) { close(sv[0]); fclose(out); observer(sv[1]); }
  close(sv[1]); hfd = sv[0];
  for (i = 0; i < nl; ) {
    int j, end; char id[64];
    if (lines[i][0] != 'T') { i++; continue; }
    snprintf(id, sizeof id, "%s", lines[i] + 2);
    { char *c = strchr(id, ' '); use_shadow = c && strchr(c, 'd'); if (c) *c = 0; }
    end = i + 1; while (end < nl && lines[end][0] != 'T') end++;
    sh->n = 0; sh->seq = 0; ops_salt = atoi(id) * 31 + 7;
    w_shadow_dir(use_shadow ? argv[3] : "");
    for (j = i + 1; j < end; ) {
      int k = j, status; pid_t p;
      while (k < end && lines[k][0] != 'P') k++;
      if (j > i + 1) emitz(sh->n ? ",{\"op\":\"newproc\",\"ret\":0}" : "{\"op\":\"newproc\",\"ret\":0}");
      fflush(out);
      p = fork();
      if (p == 0) { run_segment(lines + j, k - j); _exit(0); }
      waitpid(p, &status, 0);
      if (status) {
        char m[160]; snprintf(m, sizeof m, "%s{\"op\":\"died\",\"status\":%d,\"how\":\"%s\"}", sh->n ? "," : "", status,
          WIFEXITED(status) && WEXITSTATUS(status) == 76 ? "waits for ever" : WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "no progress" :
          WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT ? "abort" : WIFEXITED(status) && WEXITSTATUS(status) >= 77 ? "harness" : "crash");
        emitz(m);
        break;
      }
      j = k + 1;
    }
    fprintf(out, "{\"id\":\"%s\",\"ev\":[", id);
    fwrite(sh->log, 1, sh->n, out);
    fprintf(out, "]}\n");
    rmfiles(argv[3]);
    i = end;
  }
  fclose(out);
  return 0;
}
