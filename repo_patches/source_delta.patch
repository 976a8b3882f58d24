From 7212bd152be1af6e7866a5e8df16f48d4539288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 01/24] fix: reject a batch write containing an empty message
 anywhere

Only an empty first message was rejected. A later one passed the check and
hit assert(bsz > 0) under lock, after part of the batch was stored.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..3ec3ae5 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -887,7 +887,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
 
   for(i=0; i < niov; i++) {
     len += iov[i].iov_len;
-    if (len == 0) goto done;
+    if (iov[i].iov_len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From 869d8d8650c53f9642467246855c39f26dc13e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 02/24] fix: reject a batch write whose total length overflows

A huge iov_len could wrap the running total to a small number that passed
the capacity check.
---
 src/shr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shr.c b/src/shr.c
index 3ec3ae5..38cfde6 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -888,6 +888,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   for(i=0; i < niov; i++) {
     len += iov[i].iov_len;
     if (iov[i].iov_len == 0) goto done;
+    if (iov[i].iov_len > s->n) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From cb4d2149cd9d47f0f6d6689e4c070935c1e4d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/24] fix: shr_appdata get copies only the app data

With a caller buffer larger than the app data it read past the end of the
ring mapping (SIGBUS for a large buffer).
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 38cfde6..7c3b3b2 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1061,7 +1061,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From 06c0c4e70ff1aa77742e9b84f336a75376e3f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/24] fix: shr_open rejects SHR_RDONLY combined with
 SHR_WRONLY

The bits differ, so xor of the masked flags was never zero when both are set.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 7c3b3b2..820f032 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -475,7 +475,7 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  if (!(flags & SHR_RDONLY) == !(flags & SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From 287b94447c1382d85035fb3d548c0c9a5216b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 05/24] fix: skip unnamed sockets in /proc/net/unix instead of
 giving up

Any unnamed unix socket listed before the sought one made the test for a live
waiter indeterminate, so the slot of an exited waiter whose pid still exists
(zombie, or pid reuse) was not released.
---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..c01e8ab 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -271,7 +271,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
 
     /* name is after inode */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
+    if (name == NULL) { name = inode; len = 0; } /* unnamed socket */
 
     /* does name match? */
     if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
-- 
2.43.0


From 34d68c51db4462cb96e97bde1dbfb88abe004a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 06/24] fix: close /proc/<pid>/fd directory on error paths

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index c01e8ab..dacc99e 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From a9d3076d68e419b0c7a2bfdf629885ff62a2c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 07/24] fix: a refused connect means the waiter socket is gone

Otherwise a killed reader that is not yet reaped made shr_open and shr_write
of other processes fail, if /proc/<pid>/fd of the zombie is not readable.
---
 lib/bw.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..f5b93ec 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -154,7 +154,8 @@ static int open_socket(bw_t *w, int n) {
   close(fd);
 
   /* release slot if socket owner exited; success */
-  sc = has_pid_socket(h->wr[n].pid, w->name[n]); 
+  sc = (errtmp == ECONNREFUSED) ? 0 : /* no socket has this name */
+       has_pid_socket(h->wr[n].pid, w->name[n]);
   if (sc == 0) {
     h->wr[n].pid = 0;
     h->seqno++;
-- 
2.43.0


From 088ada0e5840d8e8a91a61848a19fc4c4823d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 08/24] fix: shr_init rejects sizes whose sum overflows

A huge size or max number of messages produced a ring file too small for
the limits recorded in it.
---
 src/shr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 820f032..d919fc2 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -225,6 +225,14 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     max_msgs = va_arg(ap, size_t);
   if (max_msgs == 0)
     max_msgs = (100 + data_sz / 100);
+
+  /* keep the sum of the ring regions from overflowing */
+  if ((data_sz > SSIZE_MAX / 4) || (appsize > SSIZE_MAX / 4) ||
+      (max_msgs > SSIZE_MAX / 4 / sizeof(struct msg))) {
+    shr_log("shr_init: invalid size\n");
+    goto done;
+  }
+
   mv_bytes = max_msgs * sizeof(struct msg);
 
   exists = (access(file, F_OK) == 0) ? 1 : 0;
-- 
2.43.0


From cea3bf08b4cd10ce028117d66652c6e0918af27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 09/24] fix: a write or read changes nothing when peers cannot
 be woken

shr_writev committed its messages and then returned -1 when bw_wake
failed to connect to a newly opened reader (e.g. descriptor limit
reached); the caller would write them again. shr_readv freed space and
left blocked writers asleep in the same situation. Synchronize with the
waiters before changing the ring.
---
 lib/bw.c  | 11 ++++++++++-
 lib/bw.h  |  1 +
 src/shr.c |  6 ++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index f5b93ec..bbfd2cd 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -170,8 +170,17 @@ static int open_socket(bw_t *w, int n) {
 /*
  * ensure wake-mode caller has open socket to all 
  * active slots in handle, and only these sockets
+ *
+ * bw_wake does this implicitly. a caller that needs
+ * to know beforehand that bw_wake is going to succeed
+ * calls this first, under the same lock acquisition
+ *
+ * call WITH handle under lock
+ *
+ * returns 0 on success
+ *        -1 on error
  */
-static int bw_sync(bw_t *w) {
+int bw_sync(bw_t *w) {
   bw_handle *h = (bw_handle *)w->h;
   int rc = -1, n;
 
diff --git a/lib/bw.h b/lib/bw.h
index 2944cfd..be0818f 100644
--- a/lib/bw.h
+++ b/lib/bw.h
@@ -42,6 +42,7 @@ typedef struct bw_handle bw_handle;
 
 /* API */
 bw_t * bw_open(int flags, bw_handle *h, ...); /* CALL WITH HANDLE UNDER LOCK */
+int bw_sync(bw_t *w);                         /* CALL WITH HANDLE UNDER LOCK */
 int bw_wake(bw_t *w);                         /* CALL WITH HANDLE UNDER LOCK */
 void bw_close(bw_t *w);                       /* CALL WITH HANDLE UNDER LOCK */
 int bw_force(bw_t *w, int ready);             /* CALL WITH HANDLE UNDER LOCK */
diff --git a/src/shr.c b/src/shr.c
index d919fc2..ffc3a80 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -826,6 +826,9 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
+  /* before consuming, be sure that we can wake writers */
+  if (bw_sync(s->r2w) < 0) goto done;
+
   /* reached when data is available */
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
@@ -934,6 +937,9 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   while (1) {
     if (lock(s->ring_fd) < 0) goto done;
 
+    /* before any change, be sure that we can wake readers */
+    if (bw_sync(s->w2r) < 0) goto done;
+
     /* if ring has enough free space, break */
     if ((r->n - r->u >= len) && 
         (r->mm - r->m >= niov)) break;
-- 
2.43.0


From e0849323202c1091349374e02ba09e4725ba0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 10/24] fix: a waiter whose socket name recurs in a reused slot
 is woken

A waker that was connected to the former occupant of a slot did not
notice when the slot passed to a new socket to which the kernel had
assigned the same name. Its wakeup failed and it released the slot of
the live waiter, who then slept forever.
---
 lib/bw.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index bbfd2cd..a6e1426 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -606,7 +606,9 @@ int bw_wait_ul(bw_t *w) {
 /*
  * send wake up byte one waiting socket
  * if it errors out for anything but ewouldblock/eagain
- * disconnect from that socket and zero its slot
+ * disconnect from that socket, and connect anew in case
+ * the slot passed to a socket having that name by chance
+ * (autobind names recur). otherwise, zero its slot
  */
 static void wake_one(bw_t *w, int n) {
   ssize_t nr;
@@ -624,6 +626,12 @@ static void wake_one(bw_t *w, int n) {
   }
   close(w->fd[n]);
   w->fd[n] = -1;
+  if ((open_socket(w, n) == 0) && (w->fd[n] != -1)) {
+    nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+    if (nr >= 0) return;
+    close(w->fd[n]);
+    w->fd[n] = -1;
+  }
   w->h->seqno++;
   w->h->wr[n].pid = 0;
 }
-- 
2.43.0


From 61321c875aa987fa3e496aef89137659bedaa7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 11/24] fix: a read whose sync fails does not report success

---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index ffc3a80..d5ac964 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -860,7 +860,7 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
   if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
-  if (shr_sync(s) < 0) goto done;
+  if (shr_sync(s) < 0) rc = -1;
 
  done:
   unlock(s->ring_fd);
-- 
2.43.0


From 500bb29060da81ef96923062eca2f45c63b39537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 12/24] fix: shr_open releases its waiting place when a late
 step fails

A failed cache allocation or sync left the sockets open and the slot
occupied.
---
 src/shr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index d5ac964..4f390e5 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -620,6 +620,12 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  if (s && rc) { /* release bw handles under lock */
+    if (s->w2r) bw_close(s->w2r);
+    if (s->r2w) bw_close(s->r2w);
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
+  }
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
     if (s->ring_fd != -1) close(s->ring_fd);
-- 
2.43.0


From e9463b388fbeb249d7698b6ad5215a5e5b79185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 13/24] fix: subscriber buffer holds the largest frame it
 accepts

A frame of 999997 to 1048576 bytes filled the buffer without ever
becoming complete, which ended the subscriber in an assertion.
---
 util/shr-tool.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..da582d9 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -33,14 +33,12 @@ extern char **environ;
  * they're in the struct below they'd be
  * in the initialized data area and the
  * resulting binary gets much larger */
-#define BUFLEN 1000000
+#define MAX_FRAME (1024*1024)    /* subscriber safeguard */
+#define BUFLEN (4 + MAX_FRAME)   /* any frame with its length prefix */
 #define NUMIOV (1024 * 1024)
 char buf_bss[BUFLEN];
 struct iovec iov_bss[NUMIOV];
 
-/* subscriber safeguard */
-#define MAX_FRAME (1024*1024)
-
 struct {
   char *prog;
   int verbose;
-- 
2.43.0


From d0fae9231cb10b7a33f3447438d8ca5fc5852ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 14/24] fix: subscriber splits a batch that exceeds the ring's
 limits

Frames arriving together were written as one batch. When they were more
than the ring's byte size or message limit, the write was invalid and
the subscriber ended, losing frames that fit one by one.
---
 util/shr-tool.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index da582d9..a8fdca2 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -83,6 +83,7 @@ struct {
   int sub_fd;
   int pub_len_prefix;
   size_t sub_buf_used;
+  struct shr_stat sub_stat;
   struct iovec *sub_iov;
   char tmp[100];
   char *buf;
@@ -445,7 +446,7 @@ char *map(char *file, size_t *len) {
  */
 int decode_frames(void) {
   char *c, *body, *eob;
-  size_t iov_used=0;
+  size_t iov_used=0, iov_len=0;
   uint32_t blen;
   int rc = -1;
   ssize_t nr;
@@ -463,8 +464,20 @@ int decode_frames(void) {
     }
     body = c + sizeof(uint32_t);
     if (body + blen > eob) break;
+    /* never more at once than an empty ring can take */
+    if (iov_used && ((iov_len + blen > cfg.sub_stat.bn) ||
+                     (iov_used == cfg.sub_stat.mm))) {
+      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      if (nr < 0) {
+        fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+        goto done;
+      }
+      iov_used = 0;
+      iov_len = 0;
+    }
     cfg.sub_iov[ iov_used ].iov_base = body;
     cfg.sub_iov[ iov_used ].iov_len  = blen;
+    iov_len += blen;
     iov_used++;
     if (iov_used == NUMIOV) break;
     c += sizeof(uint32_t) + blen;
@@ -1212,6 +1225,8 @@ int main(int argc, char *argv[]) {
     case mode_sub:
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
+      sc = shr_stat(cfg.shr, &cfg.sub_stat, NULL);
+      if (sc < 0) goto done;
       sc = setup_subscriber();
       if (sc < 0) goto done;
       break;
-- 
2.43.0


From cfc8ba9a95283749db11596eaa0524457caf89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 15/24] fix: writehex rejects arguments with non-hex characters

sscanf accepted pairs like '1g', ' 1' and '+1', storing a message, and
ended in an assertion on '-1'.
---
 util/shr-tool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index a8fdca2..ab5494b 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -9,6 +9,7 @@
 #include <sys/stat.h>
 #include <sys/vfs.h>
 #include <limits.h>
+#include <ctype.h>
 #include <signal.h>
 #include <string.h>
 #include <assert.h>
@@ -195,6 +196,9 @@ int unhex(char *h) {
 
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
+  for(i=0; i < len; i++) {
+    if (!isxdigit((unsigned char)h[i])) goto done;
+  }
   for(i=0; i < len; i += 2) {
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
-- 
2.43.0


From 33f5ca88ad0d23b34cab5ed1880bdaa2b3106f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 16/24] fix: read continues a partial output and notices a
 failed one

A short write repeated the message from its start, and the error check
compared an unsigned value.
---
 util/shr-tool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index ab5494b..2263256 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -671,7 +671,8 @@ int handle_io(void) {
   int rc = -1, sc, fl;
   ssize_t nr, np;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
+  ssize_t nw;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -699,8 +700,7 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
+      else for(out = cfg.buf; nr > 0; ) {
         nw = write(STDOUT_FILENO, out, nr);
         if (nw < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
@@ -708,7 +708,7 @@ int handle_io(void) {
         }
         nr -= nw;
         out += nw;
-      } while (nr > 0);
+      }
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
-- 
2.43.0


From 218c7ba299669e330514066cd15db0bcc2019549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 17/24] fix: write stores long lines whole and continues after
 an empty one

A line over 998 bytes became several messages, bytes after a nul were
lost, and an empty line ended the command, losing the lines after it.
---
 util/shr-tool.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 2263256..c6a4e07 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -922,11 +922,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1177,9 +1177,9 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
-        if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
+      while ((nr = getline(&line, &line_sz, stdin)) > 0) {
+        if (line[nr-1] == '\n') nr--;
+        if (nr == 0) continue;
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
@@ -1333,6 +1333,7 @@ int main(int argc, char *argv[]) {
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
   if (cfg.addr_spec) free(cfg.addr_spec);
+  if (line) free(line);
   return rc;
 }
 
-- 
2.43.0


From 80a09e8ae22a93e44aa39fa0949765c2f026350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 18/24] fix: count a write before notifying readers

A writer killed while sending wakeups left its messages in the ring but
not in the metrics.
---
 src/shr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 4f390e5..7f154f8 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1022,10 +1022,11 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
+
+  sc = bw_wake(s->w2r);
+  if (sc) goto done;
   if (shr_sync(s) < 0) goto done;
   rc = 0;
 
-- 
2.43.0


From 53d6187f9b2fb6bfbc6689c05e62ad23d1ecfd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 19/24] fix: release bw handles on close even if the lock fails

---
 src/shr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 7f154f8..ec838e1 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1180,14 +1180,14 @@ void shr_close(struct shr *s) {
   /* flush cache */
   if (s->c.n) shr_flush(s,0);
 
-  /* release bw handles under lock.
+  /* release bw handles under lock. if the lock can't
+   * be had, release them anyway; don't leak descriptors.
    * don't close s->wait_fd- bw does! */
-  if (lock(s->ring_fd) < 0) goto end;
+  lock(s->ring_fd);
   if (s->w2r) bw_close(s->w2r);
   if (s->r2w) bw_close(s->r2w);
   unlock(s->ring_fd);
 
- end:
   /* free the cache if any */
   if (s->c.buf) free(s->c.buf);
   if (s->c.iov) free(s->c.iov);
-- 
2.43.0


From 4b7daf23d343d8131b1827697bb9b2b8ecea1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 20/24] fix: bw_open failing in wake mode closes the sockets it
 connected

---
 lib/bw.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index a6e1426..d737b5a 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -430,6 +430,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
 
  done:
   if (rc && w) {
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     if (w->slotno != -1)
       w->h->wr[ w->slotno ].pid = 0;
     if (w->listenfd != -1) close(w->listenfd);
-- 
2.43.0


From b3869026869000ddaf70c5d31c66b8f7764e935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 21/24] fix: notify peers before changing the ring

---
 src/shr.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index ec838e1..97e2eec 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -832,8 +832,9 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
-  /* before consuming, be sure that we can wake writers */
-  if (bw_sync(s->r2w) < 0) goto done;
+  /* wake writers before consuming. they cannot get the lock before
+   * we are done; were we to die, none would be left asleep by us */
+  if ((l1+l2 <= len) && (bw_wake(s->r2w) < 0)) goto done;
 
   /* reached when data is available */
   while (msg_ready) {
@@ -863,7 +864,6 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
 
   r->stat.br += nr;
   r->stat.mr += mc;
-  if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
   if (shr_sync(s) < 0) rc = -1;
@@ -943,17 +943,11 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   while (1) {
     if (lock(s->ring_fd) < 0) goto done;
 
-    /* before any change, be sure that we can wake readers */
-    if (bw_sync(s->w2r) < 0) goto done;
-
     /* if ring has enough free space, break */
     if ((r->n - r->u >= len) && 
         (r->mm - r->m >= niov)) break;
 
-    if (r->gflags & SHR_DROP) {
-      drop_unread(s, len, niov);
-      break;
-    }
+    if (r->gflags & SHR_DROP) break;
 
     if (s->flags & SHR_NONBLOCK) {
       rc = 0;
@@ -966,6 +960,13 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if (sc) return sc;
   }
 
+  /* wake readers before any change. they cannot get the lock before
+   * we are done; were we to die, none would be left asleep by us */
+  if (bw_wake(s->w2r) < 0) goto done;
+
+  if ((r->n - r->u < len) || (r->mm - r->m < niov))
+    drop_unread(s, len, niov);
+
   /* sufficient free space has been made available. */
   assert(r->n - r->u >= len);
   assert(r->m + niov <= r->mm);
@@ -1025,8 +1026,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->stat.bw += len;
   r->stat.mw += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   if (shr_sync(s) < 0) goto done;
   rc = 0;
 
-- 
2.43.0


From 7826e50ace473e0a6b8e8beebefe040e3d5e5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:10 +0000
Subject: [PATCH 22/24] fix: publisher survives a client that resets its
 connection

---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index c6a4e07..16ffebd 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -580,7 +580,7 @@ int handle_client(void) {
   if (nr < 0) {
     fprintf(stderr, "recv: %s\n", strerror(errno) );
     close_client();
-    return -1;
+    return 0;
   }
 
   if (nr == 0) {
-- 
2.43.0


From 109e886cf4c31e7ec25776a62f61ac27290c63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:56 +0000
Subject: [PATCH 23/24] fix: a ring becomes valid only when it is complete

The magic was written first, so a ring whose creator was killed while
filling in the header opened as a ring without modes or application data.
---
 src/shr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 97e2eec..6a9b897 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -282,7 +282,6 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
 
   shr_ctrl *r = (shr_ctrl *)buf; 
   memset(r, 0, sizeof(*r));
-  memcpy(r->magic, magic, sizeof(magic));
   r->mm = max_msgs;
   r->pad_len = pad;
   r->mv_len = mv_bytes;
@@ -297,6 +296,11 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     memcpy(r->d + r->n + r->pad_len + r->mv_len, appdata, appsize);
   }
 
+  /* the magic goes in last, so a ring whose creator
+   * was killed before it was complete never validates */
+  __sync_synchronize();
+  memcpy(r->magic, magic, sizeof(magic));
+
   rc = 0;
 
  done:
-- 
2.43.0


From 34d1c99418953d390a095188defbc6b9bdc7eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:05 +0000
Subject: [PATCH 24/24] fix: an unreaped process frees its place for any user

A zombie's descriptors are unreadable but for root, so its place was
never confirmed free. A name that no socket has any more is enough.
---
 lib/ux.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index dacc99e..e2adb4b 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -34,7 +34,11 @@ int has_pid_socket(pid_t pid, char *name) {
   if ((sc < 0) && (errno == ESRCH)) return 0;
 
   sc = get_socket_inodes(pid, inodes, MAX_INODES, &n_inodes);
-  if (sc < 0) return sc;
+  if (sc < 0) {
+    /* can't see its descriptors. e.g. pid is a zombie and we
+     * aren't root. it doesn't matter if the name is extinct */
+    return (has_socket_name(NULL, 0, name) == 0) ? 0 : sc;
+  }
 
   sc = has_socket_name(inodes, n_inodes, name);
   return sc;
@@ -226,6 +230,7 @@ static char *get_col(int col, size_t *len, char *buf, size_t buflen) {
 
 /*
  * does pid have open a domain socket of given name whose inode is in the list?
+ * (if the list is NULL, any inode)
  *
  * returns:
  *   0: no
@@ -275,7 +280,12 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
 
     /* does name match? */
     if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
-      
+
+      if (inodes == NULL) {
+        rc = 1;
+        goto done;
+      }
+
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
         if (inum != inodes[n]) continue;
-- 
2.43.0

