#define _GNU_SOURCE
#include <sys/socket.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <limits.h>
#include "wrap.h"

void (*yield_hook)(int, const char *);
int (*wait_hook)(int (*)(void *), void *, const char *);
int (*lock_hook)(int, int, void *);
void (*lock_state_hook)(int, int);
void (*map_hook)(void *, size_t, int, int);
long w_mem, w_maps;
long w_fault_at; int w_fault_errno, w_fault_hit; char w_fault_name[32];
int w_msync_fail, w_msync_failed, w_mlock_mode;
void *w_last_map; size_t w_last_map_len; int w_last_map_fd = -1;

#define Y(name) do { if (yield_hook) yield_hook(Y_CALL, name); } while (0)

static int fault(const char *name) {
  if (w_fault_at == 0) return 0;
  if (--w_fault_at > 0) return 0;
  w_fault_hit = 1;
  snprintf(w_fault_name, sizeof w_fault_name, "%s", name);
  errno = w_fault_errno;
  return 1;
}

/* a genuine failure for want of descriptors counts as an injected one */
static int real(int rc) { if (rc < 0 && (errno == EMFILE || errno == ENFILE)) w_fault_hit = 1; return rc; }

/* ---- memory ---- */
void *w_malloc(size_t n) { void *p; if (fault("malloc")) { errno = ENOMEM; return NULL; }
  p = malloc(n); if (p) w_mem++; return p; }
void *w_calloc(size_t a, size_t n) { void *p; if (fault("calloc")) { errno = ENOMEM; return NULL; }
  p = calloc(a, n); if (p) w_mem++; return p; }
void *w_realloc(void *q, size_t n) { void *p; if (fault("realloc")) { errno = ENOMEM; return NULL; }
  p = realloc(q, n); if (p && !q) w_mem++; return p; }
void w_free(void *p) { if (p) w_mem--; free(p); }
char *w_strdup(const char *s) { char *p = strdup(s); if (p) w_mem++; return p; }

/* ---- files ---- */
int w_open(const char *path, int flags, ...) {
  va_list ap; mode_t m; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
  Y("open");
  if (fault("open")) return -1;
  return real(open(path, flags, m));
}
int w_open64(const char *path, int flags, ...) {
  va_list ap; mode_t m; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
  return w_open(path, flags, m);
}
int w_openat(int d, const char *path, int flags, ...) {
  va_list ap; mode_t m; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
  Y("openat");
  if (fault("openat")) return -1;
  return real(openat(d, path, flags, m));
}
int w_close(int fd) {
  Y("close");
  if (lock_state_hook) lock_state_hook(fd, -1);
  return close(fd);
}
DIR *w_opendir(const char *p) { DIR *d; Y("opendir"); d = opendir(p); if (!d) real(-1); return d; }
int w_access(const char *p, int m) { Y("access"); return access(p, m); }
int w_unlink(const char *p) { Y("unlink"); return unlink(p); }
int w_rename(const char *a, const char *b) { Y("rename"); return rename(a, b); }
int w_link(const char *a, const char *b) { Y("link"); return link(a, b); }
int w_ftruncate(int fd, off_t l) { Y("ftruncate"); if (fault("ftruncate")) return -1; return ftruncate(fd, l); }
int w_ftruncate64(int fd, off_t l) { return w_ftruncate(fd, l); }
int w_fstat(int fd, struct stat *s) { Y("fstat"); if (fault("fstat")) return -1; return fstat(fd, s); }
int w_stat(const char *p, struct stat *s) { Y("stat"); if (fault("stat")) return -1; return stat(p, s); }
int w_kill(pid_t p, int s) { Y("kill"); if (s != 0) return 0; return kill(p, s); }

int w_fcntl(int fd, int cmd, ...) {
  va_list ap; void *a; int rc;
  va_start(ap, cmd); a = va_arg(ap, void *); va_end(ap);
  if (cmd == F_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_SETLK) {
    struct flock *f = a;
    if (f->l_type == F_UNLCK) {
      if (yield_hook) yield_hook(Y_UNLOCK, "unlock");
      if (lock_state_hook) lock_state_hook(fd, 0);
      rc = fcntl(fd, cmd, a);
      if (yield_hook) yield_hook(Y_CALL, "unlocked");
      return rc;
    }
    if (fault("lock")) return -1;
    if (yield_hook) yield_hook(Y_LOCK, "lock");
    rc = lock_hook ? lock_hook(fd, cmd, a) : fcntl(fd, cmd, a);
    if (rc == 0 && lock_state_hook) lock_state_hook(fd, f->l_type == F_WRLCK ? 2 : 1);
    return rc;
  }
  Y("fcntl");
  return fcntl(fd, cmd, a);
}
int w_fcntl64(int fd, int cmd, ...) {
  va_list ap; void *a; va_start(ap, cmd); a = va_arg(ap, void *); va_end(ap);
  return w_fcntl(fd, cmd, a);
}
int w_flock(int fd, int op) {
  int rc;
  if (op & LOCK_UN) { if (yield_hook) yield_hook(Y_UNLOCK, "unlock"); if (lock_state_hook) lock_state_hook(fd, 0); return flock(fd, op); }
  if (fault("lock")) return -1;
  if (yield_hook) yield_hook(Y_LOCK, "lock");
  if (lock_hook) {
    struct flock f; memset(&f, 0, sizeof f);
    rc = lock_hook(fd, -op - 1000, &f);
  } else rc = flock(fd, op);
  if (rc == 0 && lock_state_hook) lock_state_hook(fd, 2);
  return rc;
}

/* ---- mappings ---- */
static struct { void *a; size_t len; } locked[4096];
static int nlocked;
static void lock_add(void *a, size_t len) { if (nlocked < 4096) { locked[nlocked].a = a; locked[nlocked++].len = len; } }
static void lock_del(void *a, size_t len) {
  int i;
  for (i = 0; i < nlocked; i++) {
    char *s = locked[i].a, *e = s + locked[i].len, *x = a, *y = x + len;
    if (y <= s || e <= x) continue;
    if (x > s && y < e && nlocked < 4096) { locked[nlocked].a = y; locked[nlocked++].len = e - y; locked[i].len = x - s; }
    else if (x > s) locked[i].len = x - s;
    else if (y < e) { locked[i].a = y; locked[i].len = e - y; }
    else { locked[i] = locked[--nlocked]; i--; }
  }
}
int w_is_locked(void *a, size_t len) {
  char *x = a, *y = x + len; int i, again = 1;
  while (x < y && again) {
    again = 0;
    for (i = 0; i < nlocked; i++) {
      char *s = locked[i].a, *e = s + locked[i].len;
      if (s <= x && x < e) { x = e; again = 1; }
    }
  }
  return x >= y;
}
long w_locked_bytes(void) { long n = 0; int i; for (i = 0; i < nlocked; i++) n += locked[i].len; return n; }
void w_forget_locked(void) { nlocked = 0; }
static char *pgdown(void *a) { return (char *)((unsigned long)a & ~4095UL); }
static size_t pglen(void *a, size_t len) { char *s = pgdown(a); return (((char *)a + len - s) + 4095) & ~4095UL; }
static int lockall_future;

void *w_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
  void *p;
  Y("mmap");
  if (fault("mmap")) return MAP_FAILED;
  p = mmap(a, len, prot, flags & ~MAP_LOCKED, fd, off);
  if (p == MAP_FAILED) return p;
  if (fd >= 0) {
    w_maps++; w_last_map = p; w_last_map_len = len; w_last_map_fd = fd;
    if ((flags & MAP_LOCKED) || lockall_future) { if (!w_mlock_mode) lock_add(p, pglen(p, len)); else w_fault_hit = 1; }
    if (map_hook) map_hook(p, len, fd, 1);
  }
  return p;
}
void *w_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return w_mmap(a, len, prot, flags, fd, off); }
int w_munmap(void *a, size_t len) {
  int rc;
  Y("munmap");
  rc = munmap(a, len);
  if (rc == 0) { w_maps--; lock_del(pgdown(a), pglen(a, len)); if (map_hook) map_hook(a, len, -1, 0); }
  return rc;
}
static int mlock_errno(void) { return w_mlock_mode == 2 ? EAGAIN : w_mlock_mode == 3 ? EPERM : ENOMEM; }
int w_mlock(const void *a, size_t len) {
  Y("mlock");
  if (fault("mlock")) return -1;
  if (w_mlock_mode) { w_fault_hit = 1; errno = mlock_errno(); return -1; }
  lock_add(pgdown((void *)a), pglen((void *)a, len));
  return 0;
}
int w_mlock2(const void *a, size_t len, unsigned f) { (void)f; return w_mlock(a, len); }
int w_munlock(const void *a, size_t len) { Y("munlock"); lock_del(pgdown((void *)a), pglen((void *)a, len)); return 0; }
int w_mlockall(int f) { if (w_mlock_mode) { w_fault_hit = 1; errno = mlock_errno(); return -1; } if (f & MCL_FUTURE) lockall_future = 1;
  if (f & MCL_CURRENT) lock_add((void *)4096, (size_t)1 << 47);
  return 0; }
int w_munlockall(void) { lockall_future = 0; nlocked = 0; return 0; }

/* ---- stable storage ---- */
static char shadow_dir[PATH_MAX];
void w_shadow_dir(const char *dir) { snprintf(shadow_dir, sizeof shadow_dir, "%s", dir); }
static void shadow_name(ino_t ino, char *out, size_t n) { snprintf(out, n, "%s/disk.%lu", shadow_dir, (unsigned long)ino); }
/* find the inode mapped at address a: via /proc/self/maps */
static ino_t inode_at(void *a, void **base, off_t *off, size_t *len) {
  FILE *f = fopen("/proc/self/maps", "r"); char line[1024]; ino_t r = 0;
  while (f && fgets(line, sizeof line, f)) {
    unsigned long s, e, o, ino; char pr[8], dev[16];
    if (sscanf(line, "%lx-%lx %7s %lx %15s %lu", &s, &e, pr, &o, dev, &ino) != 6) continue;
    if ((unsigned long)a < s || (unsigned long)a >= e) continue;
    r = ino; *base = (void *)s; *off = o; *len = e - s; break;
  }
  if (f) fclose(f);
  return r;
}
static void store_range(ino_t ino, const char *src, off_t off, size_t len) {
  char path[PATH_MAX + 64]; int fd;
  shadow_name(ino, path, sizeof path);
  fd = open(path, O_RDWR | O_CREAT, 0644);
  if (fd < 0) return;
  while (len) { ssize_t n = pwrite(fd, src, len, off); if (n <= 0) break; src += n; off += n; len -= n; }
  close(fd);
}
int w_msync(void *a, size_t len, int flags) {
  int rc;
  Y("msync");
  if (fault("msync")) { w_msync_failed = 1; return -1; }
  if (w_msync_fail) { w_msync_failed = w_fault_hit = 1; errno = EIO; return -1; }
  rc = msync(a, len, flags);
  if (rc == 0 && (flags & MS_SYNC) && shadow_dir[0]) {
    char *x = a, *y = x + len;   /* whole pages reach the disk */
    y = (char *)(((unsigned long)y + 4095) & ~4095UL);
    while (x < y) {
      void *base; off_t off; size_t ml; ino_t ino = inode_at(x, &base, &off, &ml);
      size_t l; struct stat st; char fn[64]; 
      if (!ino) break;
      l = (char *)base + ml - x; if (l > (size_t)(y - x)) l = y - x;
      /* do not store past the end of the file */
      (void)st; (void)fn;
      store_range(ino, x, off + (x - (char *)base), l);
      x += l;
    }
  }
  return rc;
}
static int sync_fd(int fd) {
  struct stat st; char *m;
  if (!shadow_dir[0] || fstat(fd, &st) || st.st_size == 0) return 0;
  m = mmap(0, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) return 0;
  store_range(st.st_ino, m, 0, st.st_size);
  munmap(m, st.st_size);
  return 0;
}
int w_fsync(int fd) { Y("fsync"); if (w_msync_fail) { w_msync_failed = w_fault_hit = 1; errno = EIO; return -1; } sync_fd(fd); return fsync(fd); }
int w_fdatasync(int fd) { return w_fsync(fd); }
int w_shadow_copy(const char *path, const char *dst) {
  struct stat st; char sp[PATH_MAX + 64], buf[65536]; int i, o; ssize_t n;
  if (stat(path, &st)) return -1;
  shadow_name(st.st_ino, sp, sizeof sp);
  unlink(dst);
  o = open(dst, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (o < 0) return -1;
  i = open(sp, O_RDONLY);
  if (i >= 0) { while ((n = read(i, buf, sizeof buf)) > 0) if (write(o, buf, n) != n) break; close(i); }
  if (ftruncate(o, st.st_size)) {}
  close(o);
  return 0;
}

/* ---- sockets ---- */
static int refuse_autobind; 
int w_socket(int d, int t, int p) { Y("socket"); if (fault("socket")) return -1; return real(socket(d, t, p)); }
int (*bind_hook)(int fd);
int w_bind(int fd, const struct sockaddr *a, socklen_t l) {
  (void)refuse_autobind;
  Y("bind"); if (fault("bind")) return -1;
  if (bind_hook && l == sizeof(sa_family_t)) { int rc = bind_hook(fd); if (rc <= 0) return rc; }
  return bind(fd, a, l);
}
int w_connect(int fd, const struct sockaddr *a, socklen_t l) { Y("connect"); return connect(fd, a, l); }
int w_getsockname(int fd, struct sockaddr *a, socklen_t *l) { Y("getsockname"); if (fault("getsockname")) return -1; return getsockname(fd, a, l); }
int w_setsockopt(int fd, int lv, int o, const void *v, socklen_t l) { Y("setsockopt"); return setsockopt(fd, lv, o, v, l); }

/* waiting calls. probe() performs the call without waiting: >=0 something to report */
static int wait_until(int (*probe)(void *), void *arg, const char *what) {
  if (wait_hook) return wait_hook(probe, arg, what);
  return 0;
}

struct sarg { int fd; const void *b; size_t l; int fl; struct msghdr *h; const struct sockaddr *a; socklen_t al; ssize_t rc; };
static int p_send(void *v) { struct sarg *s = v; s->rc = s->h ? sendmsg(s->fd, s->h, s->fl | MSG_DONTWAIT)
                                                   : sendto(s->fd, s->b, s->l, s->fl | MSG_DONTWAIT, s->a, s->al);
  return !(s->rc < 0 && (errno == EAGAIN)); }
static ssize_t do_send(struct sarg *s, const char *nm) {
  int nb = (s->fl & MSG_DONTWAIT) || (fcntl(s->fd, F_GETFL) & O_NONBLOCK);
  Y(nm);
  if (p_send(s) || nb) return s->rc;
  while (!wait_until(p_send, s, nm)) { if (!wait_hook) { return s->h ? sendmsg(s->fd, s->h, s->fl) : sendto(s->fd, s->b, s->l, s->fl, s->a, s->al); } }
  return s->rc;
}
ssize_t w_send(int fd, const void *b, size_t l, int fl) { struct sarg s = {fd, b, l, fl, NULL, NULL, 0, 0}; return do_send(&s, "send"); }
ssize_t w_sendto(int fd, const void *b, size_t l, int fl, const struct sockaddr *a, socklen_t al) { struct sarg s = {fd, b, l, fl, NULL, a, al, 0}; return do_send(&s, "sendto"); }
ssize_t w_sendmsg(int fd, const struct msghdr *h, int fl) { struct sarg s = {fd, NULL, 0, fl, (struct msghdr *)h, NULL, 0, 0}; return do_send(&s, "sendmsg"); }
ssize_t w_write(int fd, const void *b, size_t l) { Y("write"); return write(fd, b, l); }
ssize_t w_read(int fd, void *b, size_t l) { Y("read"); return read(fd, b, l); }

struct rarg { int fd; void *b; size_t l; int fl; struct msghdr *h; struct mmsghdr *mm; unsigned vl; ssize_t rc; };
static int p_recv(void *v) { struct rarg *r = v;
  r->rc = r->mm ? recvmmsg(r->fd, r->mm, r->vl, r->fl | MSG_DONTWAIT, NULL) :
          r->h ? recvmsg(r->fd, r->h, r->fl | MSG_DONTWAIT) : recv(r->fd, r->b, r->l, r->fl | MSG_DONTWAIT);
  return !(r->rc < 0 && errno == EAGAIN); }
static ssize_t do_recv(struct rarg *r, const char *nm) {
  int nb = (r->fl & MSG_DONTWAIT) || (fcntl(r->fd, F_GETFL) & O_NONBLOCK);
  Y(nm);
  if (p_recv(r) || nb) return r->rc;
  while (!wait_until(p_recv, r, nm)) if (!wait_hook) return r->mm ? recvmmsg(r->fd, r->mm, r->vl, r->fl, NULL) : r->h ? recvmsg(r->fd, r->h, r->fl) : recv(r->fd, r->b, r->l, r->fl);
  return r->rc;
}
ssize_t w_recv(int fd, void *b, size_t l, int fl) { struct rarg r = {fd, b, l, fl, NULL, NULL, 0, 0}; return do_recv(&r, "recv"); }
ssize_t w_recvmsg(int fd, struct msghdr *h, int fl) { struct rarg r = {fd, NULL, 0, fl, h, NULL, 0, 0}; return do_recv(&r, "recvmsg"); }
int w_recvmmsg(int fd, struct mmsghdr *m, unsigned vl, int fl, struct timespec *t) { struct rarg r = {fd, NULL, 0, fl, NULL, m, vl, 0}; (void)t; return do_recv(&r, "recvmmsg"); }
int w_ioctl(int fd, unsigned long rq, ...) { va_list ap; void *a; va_start(ap, rq); a = va_arg(ap, void *); va_end(ap); Y("ioctl"); return ioctl(fd, rq, a); }

int w_epoll_create(int n) { Y("epoll_create"); if (fault("epoll_create")) return -1; return real(epoll_create(n)); }
int w_epoll_create1(int n) { Y("epoll_create1"); if (fault("epoll_create1")) return -1; return real(epoll_create1(n)); }
int w_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { Y("epoll_ctl"); if (fault("epoll_ctl")) return -1; return epoll_ctl(e, op, fd, ev); }
struct earg { int e; struct epoll_event *ev; int max; int rc; };
static int p_epoll(void *v) { struct earg *a = v; a->rc = epoll_wait(a->e, a->ev, a->max, 0); return a->rc != 0; }
int w_epoll_wait(int e, struct epoll_event *ev, int max, int tmo) {
  struct earg a = {e, ev, max, 0};
  Y("epoll_wait");
  if (p_epoll(&a) || tmo == 0) return a.rc;
  if (!wait_hook) return epoll_wait(e, ev, max, tmo);
  while (!wait_until(p_epoll, &a, "epoll_wait")) { if (tmo > 0) return 0; }
  return a.rc;
}
int w_epoll_pwait(int e, struct epoll_event *ev, int max, int tmo, const sigset_t *s) { (void)s; return w_epoll_wait(e, ev, max, tmo); }
struct parg { struct pollfd *p; nfds_t n; int rc; };
static int p_poll(void *v) { struct parg *a = v; a->rc = poll(a->p, a->n, 0); return a->rc != 0; }
int w_poll(struct pollfd *p, nfds_t n, int tmo) {
  struct parg a = {p, n, 0};
  Y("poll");
  if (p_poll(&a) || tmo == 0) return a.rc;
  if (!wait_hook) return poll(p, n, tmo);
  while (!wait_until(p_poll, &a, "poll")) { if (tmo > 0) return 0; }
  return a.rc;
}
int w_usleep(useconds_t u) { (void)u; Y("usleep"); return 0; }
unsigned w_sleep(unsigned u) { (void)u; Y("sleep"); return 0; }
int w_nanosleep(const struct timespec *t, struct timespec *r) { (void)t; (void)r; Y("nanosleep"); return 0; }
int w_sched_yield(void) { Y("sched_yield"); return 0; }
