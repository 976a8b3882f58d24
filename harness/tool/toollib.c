/* Helpers for tools/tooldrv.py, linked with the ring library of the tree. */
#include <sys/uio.h>
#include <stddef.h>
#include <stdint.h>
#include "shr.h"
/* composable fingerprint: see spec/ToolBytes.tla */
static const uint32_t P[3] = {32749, 32719, 32717}, B[3] = {263, 1021, 7919};
void t_fp(const unsigned char *p, size_t n, uint32_t *h) {
  int k; size_t i;
  for (k = 0; k < 3; k++) { uint32_t a = 0; for (i = 0; i < n; i++) a = (a * B[k] + p[i] + 1) % P[k]; h[k] = a; }
}
int t_writev(shr *s, char *buf, size_t *len, int n) {
  struct iovec v[256]; int i; long rc;
  for (i = 0; i < n; i++) { v[i].iov_base = buf; v[i].iov_len = len[i]; buf += len[i]; }
  rc = shr_writev(s, v, n);
  return (int)rc;
}
