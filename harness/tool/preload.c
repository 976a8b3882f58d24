/* Cuts what a program reads from and writes to stream sockets into pieces.
 * CUTR / CUTW: "seed max" (reads of at most max bytes, varying).
 * HOLD: while this file exists, writing waits; while it exists with "b" added, writing more than a length does. */
#define _GNU_SOURCE
#include <sys/socket.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <unistd.h>

static int stream(int fd) {
  int t = 0; socklen_t l = sizeof t;
  return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_STREAM;
}
static uint32_t st[2]; static long mx[2]; static int init;
static void setup(void) {
  const char *e; unsigned s; long m;
  init = 1;
  if ((e = getenv("CUTR")) && sscanf(e, "%u %ld", &s, &m) == 2) { st[0] = s * 2654435761u | 1; mx[0] = m; }
  if ((e = getenv("CUTW")) && sscanf(e, "%u %ld", &s, &m) == 2) { st[1] = s * 2654435761u | 1; mx[1] = m; }
}
static size_t cut(int w, size_t n) {
  uint32_t x; size_t k;
  if (!init) setup();
  if (!mx[w] || n == 0) return n;
  x = st[w]; x ^= x << 13; x ^= x >> 17; x ^= x << 5; st[w] = x;
  switch ((x >> 8) % 8) {
    case 0: k = 1; break;
    case 1: k = 2 + (x >> 12) % 3; break;
    case 2: case 3: k = 1 + (x >> 12) % 16; break;
    case 4: k = n; break;
    default: k = 1 + (x >> 12) % (mx[w] < 2 ? 2 : mx[w]);
  }
  /* large buffers: not too many pieces */
  if (mx[w] > 10000 && k < 16 && (x >> 28)) k = mx[w] / 2;
  return k < n ? k : n;
}
static void hold(size_t n) {
  static const char *h; static char b[4096];
  if (!h) { h = getenv("HOLD"); if (!h) h = ""; snprintf(b, sizeof b, "%sb", h); }
  if (*h) while (access(h, F_OK) == 0 || (n > 4 && access(b, F_OK) == 0)) usleep(300);
}
#define REAL(r, n, ...) static r (*f)(__VA_ARGS__); if (!f) f = dlsym(RTLD_NEXT, #n)
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return f(fd, b, n && stream(fd) ? cut(0, n) : n); }
ssize_t recv(int fd, void *b, size_t n, int fl) { REAL(ssize_t, recv, int, void *, size_t, int); return f(fd, b, n && !(fl & MSG_WAITALL) && stream(fd) ? cut(0, n) : n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
  return f(fd, b, n && !(fl & MSG_WAITALL) && stream(fd) ? cut(0, n) : n, fl, a, l); }
/* a frame's length prefix goes out whole */
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (stream(fd)) hold(n); return f(fd, b, n > 4 && stream(fd) ? cut(1, n) : n); }
ssize_t send(int fd, const void *b, size_t n, int fl) { REAL(ssize_t, send, int, const void *, size_t, int); if (stream(fd)) hold(n); return f(fd, b, n > 4 && stream(fd) ? cut(1, n) : n, fl); }
