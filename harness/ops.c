/* Operations of the shr interface, driven by script lines (see gen.py) */
#define _GNU_SOURCE
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include "shr.h"
#include "bw.h"
#include "wrap.h"
#include "ops.h"

void *w_malloc(size_t); void w_free(void *);
int w_open(const char *, int, ...); int w_close(int); int w_fcntl(int, int, ...); int w_munmap(void *, size_t);
void *w_mmap(void *, size_t, int, int, int, off_t);

char ops_dir[PATH_MAX];
unsigned *ops_seq, ops_salt;

static struct H { shr *s; int file, rd, nb, buf, sel, ringfd; void *map; size_t maplen; int pf[8], npf; ino_t ino; } hs[MAXH];
/* handles of the wait/wake library by itself */
static struct B { bw_t *w; int file, wait, fd, sel; bw_handle *map; } bs[MAXH];
static int evfd[8] = {-1,-1,-1,-1,-1,-1,-1,-1};
static int *shared_evfd;
void ops_use_evfd(int *fds) { shared_evfd = fds; }
static int lim_on;
/* lengths in scripts and events are in these units (1, or more for rings of gigabytes) */
static size_t unit = 1;
int ops_big(void) { return unit > 1; }
static size_t inunits(size_t v) { return v % unit ? 1999999999 : v / unit; }
static long inunitsl(long v) { return v > 0 ? (long)inunits(v) : v; }
static long base_fd = -1;

static long count_fds(void);
void ops_reset(void) {
  int i;
  memset(hs, 0, sizeof hs);
  for (i = 0; i < MAXH; i++) hs[i].sel = -1;
  memset(bs, 0, sizeof bs);
  for (i = 0; i < 8; i++) evfd[i] = shared_evfd ? shared_evfd[i] : -1;
  lim_on = 0; base_fd = shared_evfd ? 0 : count_fds();
  w_mem = w_maps = 0; w_forget_locked(); w_fault_at = 0; w_msync_fail = 0; w_mlock_mode = 0;
}
const char *ops_path(int f) { static char p[4][PATH_MAX + 32]; static int k; k = (k + 1) & 3;
  snprintf(p[k], sizeof p[k], "%s/r%d", ops_dir, f); return p[k]; }
int ops_selfd(int h) { return hs[h].sel; }

void ob_add(struct opbuf *b, int res, const char *fmt, ...) {
  va_list ap; int n; char **s = res ? &b->r : &b->a; size_t *len = res ? &b->rn : &b->an, *cap = res ? &b->rcap : &b->acap;
  for (;;) {
    va_start(ap, fmt);
    n = vsnprintf(*s + *len, *cap - *len, fmt, ap);
    va_end(ap);
    if (*s && (size_t)n < *cap - *len) break;
    *cap = (*cap + n + 256) * 2;
    *s = realloc(*s, *cap);
  }
  *len += n;
}
#define A(...) ob_add(b, 0, __VA_ARGS__)
#define R(...) ob_add(b, 1, __VA_ARGS__)

unsigned ops_fp(const void *p, size_t n) {
  const unsigned char *c = p; uint64_t h = 1469598103934665603ULL; size_t i = 0;
  if (n >= 1 << 24) for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h ^= w; h *= 1099511628211ULL; h ^= h >> 31; }
  for (; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  h ^= h >> 29;
  return (unsigned)(h & 0x3fffffff);
}
static uint32_t rng(uint32_t *s) { uint32_t x = *s; x ^= x << 13; x ^= x >> 17; x ^= x << 5; return *s = x; }
/* content of a message: different from its neighbours in every byte position */
static void fill(unsigned char *p, size_t n) {
  unsigned id = __atomic_fetch_add(ops_seq, 1, __ATOMIC_SEQ_CST); uint32_t s; size_t i;
  s = (id + 1) * 2654435761u ^ ops_salt; if (!s) s = 1;
  if (n >= 1 << 24) { for (i = 0; i + 8 <= n; i += 8) { uint64_t w = ((uint64_t)rng(&s) << 32 ^ i) * 0x9E3779B97F4A7C15ULL; memcpy(p + i, &w, 8); } for (; i < n; i++) p[i] = i; return; }
  for (i = 0; i < n; i++) { if (i < 4) p[i] = (id + 1) * (i ? 37 * i : 1) + (ops_salt & 0xff); else p[i] = rng(&s) >> 11; }
}
static long count_fds(void) {
  DIR *d = opendir("/proc/self/fd"); long n = 0; struct dirent *e;
  while ((e = readdir(d))) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n - 1;
}
static long ring_maps(void) {
  FILE *f = fopen("/proc/self/maps", "r"); char l[8192]; long n = 0;
  while (fgets(l, sizeof l, f)) if (strstr(l, ops_dir)) n++;
  fclose(f);
  return n;
}
static unsigned file_fp(const char *p) {
  int fd = open(p, O_RDONLY); struct stat st; unsigned r = 0; char *m;
  if (fd < 0) return 1;
  fstat(fd, &st);
  if (st.st_size == 0) r = 2;
  else { m = malloc(st.st_size); if (read(fd, m, st.st_size) == st.st_size) r = ops_fp(m, st.st_size) ^ (unsigned)(st.st_size & 0xffff); free(m); }
  close(fd);
  return r;
}

/* ---- the prepared operation ---- */
static struct { char op[16]; int h, f, k; long v1, v2, v3; char s1[64];
  int niov; struct iovec iov[20000]; unsigned char *payload; size_t plen; int fake; } P;
static int curh = -1, curb = -1;
static int block(int fd, int type) { struct flock f = {.l_type = type, .l_whence = SEEK_SET}; return w_fcntl(fd, type == F_UNLCK ? F_SETLK : F_SETLKW, &f); }

int ops_cur_file(void) { return curh >= 0 ? hs[curh].file : P.f; }
int ops_inode_matches(void) { struct stat st; if (curh < 0 || !hs[curh].s) return 1; if (stat(ops_path(hs[curh].file), &st)) return 0; return st.st_ino == hs[curh].ino; }
int ops_has_pf(void) { return curh >= 0 && hs[curh].npf > 0; }
int ops_pf_ready(void) {
  int i; if (curh < 0) return 0;
  for (i = 0; i < hs[curh].npf; i++) { struct pollfd p = {evfd[hs[curh].pf[i]], POLLIN, 0}; if (poll(&p, 1, 0) > 0) return 1; }
  return 0;
}
void ops_force_pf(void) { uint64_t one = 1; if (curh >= 0 && hs[curh].npf) if (write(evfd[hs[curh].pf[0]], &one, 8) != 8) {} }

#define TOOBIG(l) (unit == 1 ? (l) > 400000000 : (l) > (1UL << 40))
static char *tok(char **p) { char *t = strsep(p, " \n"); while (t && !*t) t = strsep(p, " \n"); return t; }
static long num(char **p) { char *t = tok(p); return t ? atol(t) : 0; }
static unsigned clampl(size_t l) { return l > 500000000 ? 500000000 : (unsigned)l; }

int op_prepare(char *line, struct opbuf *b) {
  char *p = line, *t; size_t i;
  b->an = b->rn = 0; A("%s", ""); R("%s", "");
  t = tok(&p);
  if (!t || *t == '#') return 0;
  memset(&P, 0, offsetof(typeof(P), iov)); P.f = -1; P.h = -1; P.fake = 0;
  P.payload = NULL; P.plen = 0; curh = curb = -1;
  snprintf(P.op, sizeof P.op, "%s", t);
  if (!strcmp(t, "init")) {            /* init f n mm flags appsz */
    P.f = num(&p); P.v1 = num(&p); P.v2 = num(&p); snprintf(P.s1, sizeof P.s1, "%s", tok(&p)); P.v3 = num(&p);
    if (P.v3 >= 0) { P.plen = P.v3; P.payload = malloc(P.plen + 1); fill(P.payload, P.plen); }
    A("\"op\":\"init\",\"f\":%d,\"n\":%u,\"mm\":%u,\"drop\":%s,\"farm\":%s,\"sync\":%s,\"mlock\":%s,\"keep\":%s,\"bad\":%s,\"app\":[%ld,%u]",
      P.f, clampl(P.v1), P.v2 < 0 ? 0 : clampl(P.v2), strchr(P.s1, 'd') ? "true" : "false", strchr(P.s1, 'f') ? "true" : "false",
      strchr(P.s1, 's') ? "true" : "false", strchr(P.s1, 'l') ? "true" : "false", strchr(P.s1, 'k') ? "true" : "false",
      (strchr(P.s1, 'x') || P.v1 <= 0 || P.v1 > 500000000 || P.v2 > 500000000 || P.v3 > 500000000) ? "true" : "false",
      P.v3 > 0 ? P.v3 : 0, P.v3 > 0 ? ops_fp(P.payload, P.plen) : 0);
  } else if (!strcmp(t, "open")) {     /* open h f flags */
    P.h = num(&p); P.f = num(&p); snprintf(P.s1, sizeof P.s1, "%s", tok(&p));
    A("\"op\":\"open\",\"h\":%d,\"f\":%d,\"rd\":%s,\"wr\":%s,\"nb\":%s,\"buf\":%s,\"bad\":%s", P.h, P.f,
      strchr(P.s1, 'r') ? "true" : "false", strchr(P.s1, 'w') ? "true" : "false", strchr(P.s1, 'n') ? "true" : "false",
      strchr(P.s1, 'b') ? "true" : "false", strchr(P.s1, 'x') ? "true" : "false");
  } else if (!strcmp(t, "w") || !strcmp(t, "wv")) {  /* w h len | wv h len len ... */
    size_t off = 0; P.h = curh = num(&p);
    while ((t = tok(&p))) { long l = atol(t); P.iov[P.niov].iov_len = l * unit; P.iov[P.niov++].iov_base = NULL; if (l < 0 || l > 400000000) P.fake = 1; else if (unit == 1) P.plen += l; if (P.op[1] == 0) break; if (P.niov == 20000) break; }
    P.payload = malloc(P.plen ? P.plen : 1);
    for (i = 0; i < (size_t)P.niov; i++) { P.iov[i].iov_base = P.payload + off;
      if (TOOBIG(P.iov[i].iov_len)) continue;
      /* a separate exact allocation for each message so that over-reads are noticed */
      P.iov[i].iov_base = malloc(P.iov[i].iov_len ? P.iov[i].iov_len : 1);
      fill(P.iov[i].iov_base, P.iov[i].iov_len); off += P.iov[i].iov_len; }
    A("\"op\":\"write\",\"h\":%d,\"m\":[", P.h);
    for (i = 0; i < (size_t)P.niov; i++) A("%s[%u,%u]", i ? "," : "", clampl(inunits(P.iov[i].iov_len)),
      TOOBIG(P.iov[i].iov_len) ? 0 : ops_fp(P.iov[i].iov_base, P.iov[i].iov_len));
    A("]");
  } else if (!strcmp(t, "r") || !strcmp(t, "rv")) {
    P.h = curh = num(&p); P.v1 = num(&p); P.v2 = P.op[1] ? num(&p) : 1;
    A("\"op\":\"read\",\"h\":%d,\"len\":%ld,\"niov\":%ld", P.h, P.v1, P.v2);
  } else if (!strcmp(t, "fl")) { P.h = curh = num(&p); P.v1 = num(&p);
    A("\"op\":\"flush\",\"h\":%d,\"wait\":%s", P.h, P.v1 ? "true" : "false");
  } else if (!strcmp(t, "cl")) { P.h = curh = num(&p); A("\"op\":\"close\",\"h\":%d", P.h);
  } else if (!strcmp(t, "st")) { P.h = curh = num(&p); t = tok(&p); P.v1 = t && *t != '-' ? atol(t) : -1; P.v2 = P.v1 < 0 ? -1 : (P.v1 * 7919) % 1000000;
    A("\"op\":\"stat\",\"h\":%d,\"reset\":[%ld,%ld]", P.h, P.v1, P.v2);
  } else if (!strcmp(t, "fs")) { P.h = curh = num(&p); P.v1 = num(&p); A("\"op\":\"farmstat\",\"h\":%d,\"reset\":%s", P.h, P.v1 ? "true" : "false");
  } else if (!strcmp(t, "ag")) { P.h = curh = num(&p); t = tok(&p); P.v1 = t && *t == 'm' ? -1 : atol(t);
    A("\"op\":\"appget\",\"h\":%d,\"alloc\":%s,\"sz\":%ld", P.h, P.v1 < 0 ? "true" : "false", P.v1 < 0 ? 0 : P.v1);
  } else if (!strcmp(t, "as") || !strcmp(t, "ab")) { P.h = curh = num(&p); P.v1 = num(&p);
    P.plen = P.v1; P.payload = malloc(P.plen ? P.plen : 1); fill(P.payload, P.plen);
    A("\"op\":\"%s\",\"h\":%d,\"val\":[%ld,%u]", P.op[1] == 's' ? "appset" : "appswap", P.h, P.v1, ops_fp(P.payload, P.plen));
  } else if (!strcmp(t, "sf")) { P.h = curh = num(&p); A("\"op\":\"selfd\",\"h\":%d", P.h);
  } else if (!strcmp(t, "pf")) { P.h = curh = num(&p); P.k = num(&p); A("\"op\":\"pollfd\",\"h\":%d,\"pk\":%d", P.h, P.k);
  } else if (!strcmp(t, "pv")) { P.k = num(&p); P.v1 = num(&p); A("\"op\":\"pfset\",\"pk\":%d,\"v\":%ld", P.k, P.v1);
  } else if (!strcmp(t, "leak")) { A("\"op\":\"leak\"");
  } else if (!strcmp(t, "unit")) { P.v1 = num(&p); A("\"op\":\"env\"");
  } else if (!strcmp(t, "lim")) { P.v1 = num(&p); A("\"op\":\"env\"");
  } else if (!strcmp(t, "fault")) { P.v1 = num(&p); P.v2 = num(&p); A("\"op\":\"env\"");
  } else if (!strcmp(t, "msyncfail")) { P.v1 = num(&p); A("\"op\":\"env\"");
  } else if (!strcmp(t, "mlockfail")) { P.v1 = num(&p); A("\"op\":\"env\"");
  } else if (!strcmp(t, "mk")) {       /* mk f kind arg g : replace file f by something */
    P.f = num(&p); snprintf(P.s1, sizeof P.s1, "%s", tok(&p)); P.v1 = num(&p); P.v2 = num(&p);
    A("\"op\":\"mkfile\",\"f\":%d,\"g\":%ld", P.f, P.v2);
  } else if (!strcmp(t, "powf")) { P.f = num(&p); P.v1 = num(&p); A("\"op\":\"powerfail\",\"f\":%d,\"g\":%ld", P.f, P.v1);
  } else if (!strcmp(t, "locked")) { A("\"op\":\"locked\"");
  } else if (!strcmp(t, "ctl")) { P.h = curh = num(&p); P.v1 = num(&p); A("\"op\":\"badctl\",\"h\":%d", P.h);
  } else if (!strcmp(t, "pollsel") || !strcmp(t, "obs")) { P.h = curh = num(&p); A("\"op\":\"%s\",\"h\":%d", P.op, P.h);
  } else if (!strcmp(t, "binit")) { P.f = num(&p); A("\"op\":\"binit\",\"f\":%d", P.f);
  } else if (!strcmp(t, "bopen")) {    /* bopen h f r|w[t] : waiter or waker */
    P.h = num(&p); P.f = num(&p); snprintf(P.s1, sizeof P.s1, "%s", tok(&p));
    A("\"op\":\"bopen\",\"h\":%d,\"f\":%d,\"wait\":%s", P.h, P.f, P.s1[0] == 'r' ? "true" : "false");
  } else if (!strcmp(t, "bforce")) { P.h = curb = num(&p); P.v1 = num(&p); A("\"op\":\"bforce\",\"h\":%d,\"v\":%ld", P.h, P.v1);
  } else if (!strcmp(t, "bpf")) { P.h = curb = num(&p); P.k = num(&p); A("\"op\":\"bpf\",\"h\":%d,\"pk\":%d", P.h, P.k);
  } else if (!strcmp(t, "bwait") || !strcmp(t, "bready") || !strcmp(t, "bwake") || !strcmp(t, "bclose") || !strcmp(t, "blook") || !strcmp(t, "bsel")) {
    P.h = curb = num(&p); A("\"op\":\"%s\",\"h\":%d", P.op, P.h);
  } else { fprintf(stderr, "bad op %s\n", t); _exit(77); }
  return 1;
}

int w_poll(struct pollfd *, nfds_t, int);

int op_skip(void) { return (curh >= 0 && !hs[curh].s) || (curb >= 0 && !bs[curb].w); }   /* the handle was never opened */

void op_execute(struct opbuf *b) {
  struct H *x = P.h >= 0 ? &hs[P.h] : NULL; size_t i; long rc;
  const char *t = P.op;
  if (!strcmp(t, "init")) {
    unsigned fl = 0, before = 0; int ex;
    if (strchr(P.s1, 'd')) fl |= SHR_DROP;
    if (strchr(P.s1, 'f')) fl |= SHR_FARM;
    if (strchr(P.s1, 's')) fl |= SHR_SYNC;
    if (strchr(P.s1, 'l')) fl |= SHR_MLOCK;
    if (strchr(P.s1, 'k')) fl |= SHR_KEEPEXIST;
    if (strchr(P.s1, 'x')) fl |= SHR_RDONLY;
    if (P.v3 >= 0) fl |= SHR_APPDATA;
    if (P.v2 >= 0) fl |= SHR_MAXMSGS_2;
    (void)before;
    P.v1 *= unit;
    if (P.v3 >= 0 && P.v2 >= 0) rc = shr_init((char *)ops_path(P.f), P.v1, fl, P.payload, (size_t)P.v3, (size_t)P.v2);
    else if (P.v3 >= 0) rc = shr_init((char *)ops_path(P.f), P.v1, fl, P.payload, (size_t)P.v3);
    else if (P.v2 >= 0) rc = shr_init((char *)ops_path(P.f), P.v1, fl, (size_t)P.v2);
    else rc = shr_init((char *)ops_path(P.f), P.v1, fl);
    ex = access(ops_path(P.f), F_OK) == 0;
    R("\"ret\":%ld,\"ex\":%s", rc, ex ? "true" : "false");
  } else if (!strcmp(t, "open")) {
    unsigned fl = 0, f1 = file_fp(ops_path(P.f));
    if (strchr(P.s1, 'r')) fl |= SHR_RDONLY;
    if (strchr(P.s1, 'w')) fl |= SHR_WRONLY;
    if (strchr(P.s1, 'n')) fl |= SHR_NONBLOCK;
    if (strchr(P.s1, 'b')) fl |= SHR_BUFFERED;
    if (strchr(P.s1, 'x')) fl |= SHR_DROP;
    x->s = shr_open(ops_path(P.f), fl);
    if (x->s) {
      struct stat st;
      x->file = P.f; x->rd = !!(fl & SHR_RDONLY); x->nb = !!(fl & SHR_NONBLOCK); x->buf = !!(fl & SHR_BUFFERED); x->npf = 0;
      x->map = w_last_map; x->maplen = w_last_map_len; x->ringfd = w_last_map_fd;
      x->sel = (x->rd && x->nb) ? shr_get_selectable_fd(x->s) : -1;
      if (fstat(x->ringfd, &st) == 0) x->ino = st.st_ino;
      R("\"ret\":0");
    } else R("\"ret\":-1,\"same\":%s", f1 == file_fp(ops_path(P.f)) ? "true" : "false");
  } else if (!strcmp(t, "w")) {
    rc = shr_write(x->s, P.iov[0].iov_base, P.iov[0].iov_len);
    R("\"ret\":%ld", inunitsl(rc));
  } else if (!strcmp(t, "wv")) {
    rc = shr_writev(x->s, P.iov, P.niov);
    R("\"ret\":%ld", inunitsl(rc));
  } else if (!strcmp(t, "r")) {
    size_t want = P.v1 * unit; char *buf = malloc(want ? want : 1);
    rc = shr_read(x->s, buf, want);
    R("\"ret\":%ld,\"ok\":true,\"m\":[", inunitsl(rc));
    if (rc > 0) R("[%ld,%u]", inunitsl(rc), rc <= (long)want ? ops_fp(buf, rc) : 0);
    R("]"); free(buf);
  } else if (!strcmp(t, "rv")) {
    size_t want = P.v1 * unit; char *buf = malloc(want ? want : 1), *e = buf; size_t niov = P.v2; int ok = 1; struct iovec *iov = malloc(sizeof(*iov) * (P.v2 ? P.v2 : 1));
    memset(iov, 0x5a, sizeof(*iov) * (P.v2 ? P.v2 : 1));
    rc = shr_readv(x->s, buf, want, iov, &niov);
    if (niov > (size_t)P.v2) { ok = 0; niov = P.v2; }
    R("\"ret\":%ld,\"m\":[", inunitsl(rc));
    for (i = 0; i < niov; i++) {
      if (iov[i].iov_base != e || iov[i].iov_len > (size_t)(buf + want - e)) { ok = 0; break; }
      R("%s[%zu,%u]", i ? "," : "", inunits(iov[i].iov_len), ops_fp(e, iov[i].iov_len));
      e += iov[i].iov_len;
    }
    R("],\"ok\":%s", ok ? "true" : "false"); free(buf); free(iov);
  } else if (!strcmp(t, "fl")) { rc = shr_flush(x->s, P.v1); R("\"ret\":%ld", inunitsl(rc));
  } else if (!strcmp(t, "cl")) { shr_close(x->s); x->s = NULL; x->sel = -1; R("\"ret\":0");
  } else if (!strcmp(t, "st")) {
    struct shr_stat s; struct timeval tv = {P.v1, P.v2}; memset(&s, 0x77, sizeof s);
    rc = shr_stat(x->s, &s, P.v1 < 0 ? NULL : &tv);
    R("\"ret\":%ld,\"s\":{\"bw\":%zu,\"br\":%zu,\"mw\":%zu,\"mr\":%zu,\"bd\":%zu,\"md\":%zu,\"start\":[%ld,%ld],\"bn\":%zu,\"mm\":%zu,\"bu\":%zu,\"mu\":%zu,\"cn\":%zu,\"cm\":%zu,\"cb\":%zu,\"fl\":%u}", rc,
      inunits(s.bw), inunits(s.br), s.mw, s.mr, inunits(s.bd), s.md, (long)s.start.tv_sec, (long)s.start.tv_usec, inunits(s.bn), s.mm, inunits(s.bu), s.mu, inunits(s.cn), s.cm, inunits(s.cb), s.flags & ~SHR_APPDATA_1);
  } else if (!strcmp(t, "fs")) { R("\"ret\":%zu", shr_farm_stat(x->s, P.v1));
  } else if (!strcmp(t, "ag")) {
    void *p = NULL; size_t sz = P.v1 < 0 ? 0 : P.v1; void *mine = NULL;
    if (P.v1 >= 0) p = mine = malloc(P.v1 ? P.v1 : 1);
    rc = shr_appdata(x->s, &p, NULL, &sz);
    R("\"ret\":%ld", rc);
    if (rc == 0) R(",\"osz\":%zu,\"old\":[%zu,%u]", sz, sz, (mine && sz > (size_t)P.v1) ? 0 : ops_fp(p, sz));
    if (mine) free(mine); else if (p) w_free(p);
  } else if (!strcmp(t, "as")) { size_t sz = P.v1; rc = shr_appdata(x->s, NULL, P.payload, &sz); R("\"ret\":%ld", rc);
  } else if (!strcmp(t, "ab")) {
    size_t sz = P.v1; void *p = malloc(P.v1 ? P.v1 : 1);
    rc = shr_appdata(x->s, &p, P.payload, &sz); R("\"ret\":%ld", rc);
    if (rc == 0) R(",\"osz\":%zu,\"old\":[%zu,%u]", sz, sz, ops_fp(p, P.v1));
    free(p);
  } else if (!strcmp(t, "sf")) { R("\"ret\":%d", shr_get_selectable_fd(x->s) >= 0 ? 1 : -1);
  } else if (!strcmp(t, "pf")) {
    if (evfd[P.k] < 0) evfd[P.k] = eventfd(0, EFD_NONBLOCK);
    rc = shr_ctl(x->s, SHR_POLLFD, evfd[P.k]);
    if (rc == 0 && x->npf < 8) x->pf[x->npf++] = P.k;
    R("\"ret\":%ld", rc);
  } else if (!strcmp(t, "pv")) { uint64_t v = 1;
    if (evfd[P.k] < 0) evfd[P.k] = eventfd(0, EFD_NONBLOCK);
    if (P.v1) { if (write(evfd[P.k], &v, 8) != 8) {} } else if (read(evfd[P.k], &v, 8) != 8) {}
    R("\"ret\":0");
  } else if (!strcmp(t, "leak")) {
    long n, k; int i; struct rlimit rl, r2; getrlimit(RLIMIT_NOFILE, &rl); r2 = rl; r2.rlim_cur = r2.rlim_max; setrlimit(RLIMIT_NOFILE, &r2);
    n = count_fds();
    for (k = 0, i = 0; i < 8; i++) if (evfd[i] >= 0) k++;
    R("\"ret\":0,\"fd\":%ld,\"mem\":%ld,\"maps\":%ld", n - k - base_fd, w_mem, ring_maps());
    setrlimit(RLIMIT_NOFILE, &rl);
  } else if (!strcmp(t, "lim")) {
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    /* the limit bounds the lowest unused descriptor number */
    if (P.v1 < 0) { rl.rlim_cur = rl.rlim_max; lim_on = 0; }
    else { int fd = dup(0); rl.rlim_cur = fd + P.v1; close(fd); lim_on = 1; }
    setrlimit(RLIMIT_NOFILE, &rl); R("\"ret\":0");
  } else if (!strcmp(t, "unit")) { unit = P.v1; R("\"ret\":0");
  } else if (!strcmp(t, "fault")) { w_fault_at = P.v1; w_fault_errno = P.v2 ? P.v2 : ENOMEM; w_fault_hit = 0; R("\"ret\":0");
  } else if (!strcmp(t, "msyncfail")) { w_msync_fail = P.v1; R("\"ret\":0");
  } else if (!strcmp(t, "mlockfail")) { w_mlock_mode = P.v1; R("\"ret\":0");
  } else if (!strcmp(t, "mk")) {
    int fd; struct stat st; long full = 0; const char *kind = "bad"; char tmp[PATH_MAX + 64];
    /* kinds: gone, empty, rand N, cut N (copy of ring file v2 cut to N bytes, negative: cut by -N), magic (first byte changed) */
    snprintf(tmp, sizeof tmp, "%s/tmp.mk", ops_dir); unlink(tmp);
    if (!strcmp(P.s1, "gone")) { unlink(ops_path(P.f)); kind = "none"; }
    else {
      fd = open(tmp, O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (!strcmp(P.s1, "rand")) { char *q = malloc(P.v1 + 1); uint32_t s = 77 + P.v1; for (i = 0; i < (size_t)P.v1; i++) q[i] = rng(&s); if (write(fd, q, P.v1) != P.v1) {} free(q); }
      if (!strcmp(P.s1, "zero")) { if (ftruncate(fd, P.v1)) {} }
      if (!strcmp(P.s1, "cut") || !strcmp(P.s1, "magic") || !strcmp(P.s1, "copy")) {
        int in = open(ops_path(P.v2), O_RDONLY); char *q;
        fstat(in, &st); full = st.st_size; q = calloc(1, full + 8192);
        if (read(in, q, full) != full) {}
        close(in);
        if (P.s1[0] == 'm') { q[P.v1 % 8] ^= 1; if (write(fd, q, full) != full) {} }
        else { long n = P.s1[1] == 'o' ? full + P.v1 : P.v1 < 0 ? full + P.v1 : P.v1; if (n > full + 8000) n = full; if (n < 0) n = 0; if (write(fd, q, n) != n) {} if (n >= full) kind = "ring"; }
        free(q);
      }
      close(fd); rename(tmp, ops_path(P.f));
    }
    R("\"ret\":0,\"kind\":\"%s\"", kind);
  } else if (!strcmp(t, "powf")) { w_shadow_copy(ops_path(P.v1), ops_path(P.f)); R("\"ret\":0");
  } else if (!strcmp(t, "locked")) {
    int first = 1; R("\"ret\":0,\"lock\":[");
    for (i = 0; i < MAXH; i++) if (hs[i].s) { R("%s[%zu,%s,%s]", first ? "" : ",", i, w_is_locked(hs[i].map, hs[i].maplen) ? "true" : "false",
         w_locked_bytes() > 0 ? "true" : "false"); first = 0; }
    R("],\"any\":%s", w_locked_bytes() > 0 ? "true" : "false");
  } else if (!strcmp(t, "binit")) {
    int fd = open(ops_path(P.f), O_RDWR | O_CREAT | O_TRUNC, 0644); rc = ftruncate(fd, sizeof(bw_handle)); close(fd); R("\"ret\":%ld", rc);
  } else if (!strcmp(t, "bopen")) {
    struct B *y = &bs[P.h]; int fl = (P.s1[0] == 'r' ? BW_WAIT : BW_WAKE) | (P.s1[1] == 't' ? BW_TRACE : 0);
    y->fd = w_open(ops_path(P.f), O_RDWR); y->sel = -1; y->file = P.f; y->wait = P.s1[0] == 'r';
    y->map = w_mmap(0, sizeof(bw_handle), PROT_READ | PROT_WRITE, MAP_SHARED, y->fd, 0);
    block(y->fd, F_WRLCK);
    y->w = y->wait ? bw_open(fl, y->map, &y->sel) : bw_open(fl, y->map);
    block(y->fd, F_UNLCK);
    if (!y->w) { w_munmap(y->map, sizeof(bw_handle)); w_close(y->fd); }
    R("\"ret\":%d", y->w ? 0 : -1);
  } else if (t[0] == 'b') {
    struct B *y = &bs[P.h];
    if (!strcmp(t, "bwake")) { block(y->fd, F_WRLCK); rc = bw_wake(y->w); block(y->fd, F_UNLCK); }
    else if (!strcmp(t, "bforce")) { block(y->fd, F_WRLCK); rc = bw_force(y->w, P.v1); block(y->fd, F_UNLCK); }
    else if (!strcmp(t, "bclose")) { block(y->fd, F_WRLCK); bw_close(y->w); block(y->fd, F_UNLCK); w_munmap(y->map, sizeof(bw_handle)); w_close(y->fd); y->w = NULL; y->sel = -1; rc = 0; }
    else if (!strcmp(t, "bwait")) rc = bw_wait_ul(y->w);
    else if (!strcmp(t, "bready")) rc = bw_ready_ul(y->w);
    else if (!strcmp(t, "bpf")) { if (evfd[P.k] < 0) evfd[P.k] = eventfd(0, EFD_NONBLOCK); rc = bw_ctl(y->w, BW_POLLFD, evfd[P.k]); }
    else { struct pollfd p = {y->sel, POLLIN, 0}; rc = t[1] == 's' ? w_poll(&p, 1, -1) : poll(&p, 1, 0); rc = rc > 0 && (p.revents & POLLIN); }
    R("\"ret\":%ld", rc);
  } else if (!strcmp(t, "ctl")) { R("\"ret\":%d", shr_ctl(x->s, (int)P.v1, 0));
  } else if (!strcmp(t, "obs")) { struct pollfd p = {x->sel, POLLIN, 0}; rc = poll(&p, 1, 0); R("\"ret\":%ld", rc > 0 ? 1L : 0L);
  } else if (!strcmp(t, "pollsel")) { struct pollfd p = {x->sel, POLLIN, 0}; rc = w_poll(&p, 1, -1); R("\"ret\":%ld", rc > 0 ? 1L : 0L);
  }
  for (i = 0; i < (size_t)P.niov; i++) if (!TOOBIG(P.iov[i].iov_len)) free(P.iov[i].iov_base);
  if (P.payload) free(P.payload);
  P.payload = NULL;
}

void ops_ready(struct opbuf *b) {
  int i, first = 1;
  R(",\"rdy\":[");
  for (i = 0; i < MAXH; i++) if (hs[i].s && hs[i].sel >= 0) {
    struct pollfd p = {hs[i].sel, POLLIN, 0}; int rc = poll(&p, 1, 0);
    R("%s[%d,%d]", first ? "" : ",", i, rc > 0 && (p.revents & POLLIN) ? 1 : 0); first = 0;
  }
  for (i = 0; i < MAXH; i++) if (bs[i].w && bs[i].wait) {
    struct pollfd p = {bs[i].sel, POLLIN, 0}; int rc = poll(&p, 1, 0);
    R("%s[%d,%d]", first ? "" : ",", i, rc > 0 && (p.revents & POLLIN) ? 1 : 0); first = 0;
  }
  R("]");
}

/* one event with the readiness of all descriptors of this process */
void ops_conc_obs(struct opbuf *b, int p) {
  int i, any = 0;
  for (i = 0; i < MAXH; i++) if ((hs[i].s && hs[i].sel >= 0) || (bs[i].w && bs[i].wait)) any = 1;
  b->rn = 0;
  if (!any) return;
  R("{\"k\":\"look\",\"p\":%d", p); ops_ready(b); R("}");
}
