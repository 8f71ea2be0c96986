From 2be07a033c48f6c1af368992a8b08579c10c2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 01/34] fix: refuse a vector write with an empty element
 anywhere in it

An empty message after the first was only caught by an assertion, after
older messages had been dropped, or was reported as 0 (ring full).
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..8f415ab 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,8 +886,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done;
     len += iov[i].iov_len;
-    if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From 93dcc2d32e27d7d2f050d80f04beb08790d25277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 02/34] fix: keep searching past unnamed sockets in
 /proc/net/unix

A line without a name ended the search as indeterminate, so that the
slot of a dead waiter listed after it was never reclaimed and an open
for writing failed.
---
 lib/ux.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..0580f09 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -269,12 +269,11 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       b++;
     }
 
-    /* name is after inode */
+    /* name is after inode. unnamed sockets have none */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
 
     /* does name match? */
-    if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -287,7 +286,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     }
 
     /* advance to next line */
-    b = name+len;
+    if (name) b = name+len;
     while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
-- 
2.43.0


From a406e83f79e01b6f8451da4d0f952b0df259b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 03/34] fix: close the /proc directory stream on error

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index 0580f09..ce55c0d 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From 301fdcc872ad87dae0561cec5844f5d12c46baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 04/34] fix: release the slot of a waiter whose address refuses
 connections

No socket has the name any more, so its owner is gone even when /proc
cannot tell (a zombie of another user). Opening failed before.
---
 lib/bw.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..63fb76d 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -153,8 +153,10 @@ static int open_socket(bw_t *w, int n) {
   errtmp = errno;
   close(fd);
 
-  /* release slot if socket owner exited; success */
-  sc = has_pid_socket(h->wr[n].pid, w->name[n]); 
+  /* release slot if socket owner exited; success.
+   * if connect was refused, no socket has the name */
+  sc = (errtmp == ECONNREFUSED) ? 0 :
+       has_pid_socket(h->wr[n].pid, w->name[n]);
   if (sc == 0) {
     h->wr[n].pid = 0;
     h->seqno++;
-- 
2.43.0


From 272ad3f6dd07146f9a576f440e3f0acc1d4b7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 05/34] fix: close connected wake sockets when bw_open fails

---
 lib/bw.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 63fb76d..92d8fd5 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -427,6 +427,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     free(w);
     w = NULL;
   }
-- 
2.43.0


From 964313cbc85310f8919e48976992c10f9822d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 06/34] fix: release the wake handles and write cache when
 shr_open fails late

---
 src/shr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 8f415ab..ec464c8 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -612,8 +612,13 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  /* release bw handles under lock */
+  if (s && rc && s->w2r) bw_close(s->w2r);
+  if (s && rc && s->r2w) bw_close(s->r2w);
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
     if (s->ring_fd != -1) close(s->ring_fd);
     if (s->buf) munmap(s->buf, s->s.st_size);
     free(s);
-- 
2.43.0


From cbb4245f425b3da5805d24044c2da9b80c8f93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 07/34] fix: copy only the app data into a larger buffer

The copy took the caller's buffer length and read beyond the ring.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index ec464c8..190dcfc 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1065,8 +1065,8 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
     *sz = r->app_len;
+    memcpy(*get, ad, *sz);
   }
 
   if ((get == NULL) && (set != NULL)) {
-- 
2.43.0


From a215d9c6693d885aef23285139df509c31a21a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 08/34] fix: wake readers before the write changes the ring

When waking failed, the write returned -1 with its data in the ring and
the statistics not updated; a caller who retried wrote it twice.
---
 src/shr.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 190dcfc..167ecf1 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -881,7 +881,7 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
  */
 ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   size_t bsz, len=0, i, l1, l2, p, l, e, a, mp;
-  int rc = -1, sc, msg_wraps;
+  int rc = -1, sc, msg_wraps, fits;
   shr_ctrl *r = s->r;
   struct msg *mv;
   ssize_t nr;
@@ -930,12 +930,15 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   while (1) {
     if (lock(s->ring_fd) < 0) goto done;
 
-    /* if ring has enough free space, break */
-    if ((r->n - r->u >= len) && 
-        (r->mm - r->m >= niov)) break;
-
-    if (r->gflags & SHR_DROP) {
-      drop_unread(s, len, niov);
+    /* if ring has enough free space, or makes it, break.
+     * readers that we wake wait for the lock. wake before
+     * changing the ring, so that failure has no effect */
+    fits = ((r->n - r->u >= len) &&
+            (r->mm - r->m >= niov)) ? 1 : 0;
+    if (fits || (r->gflags & SHR_DROP)) {
+      sc = bw_wake(s->w2r);
+      if (sc) goto done;
+      if (!fits) drop_unread(s, len, niov);
       break;
     }
 
@@ -1006,8 +1009,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From fd6212b6e22a7a62adde16efe4e459e7d45ea95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 09/34] fix: never take the slot of a live waiter when waking
 it fails

A waiter that had been given the slot and the socket name of one that
closed was unregistered by a waker still connected to the old socket,
and a transient failure had the same effect; it was never woken again.
---
 lib/bw.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index 92d8fd5..8e726e5 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -601,7 +601,9 @@ int bw_wait_ul(bw_t *w) {
 /*
  * send wake up byte one waiting socket
  * if it errors out for anything but ewouldblock/eagain
- * disconnect from that socket and zero its slot
+ * the peer exited, or its slot and name have passed on
+ * to another, or the failure is transient. reconnect,
+ * which zeroes the slot if the peer exited; try again
  */
 static void wake_one(bw_t *w, int n) {
   ssize_t nr;
@@ -615,12 +617,20 @@ static void wake_one(bw_t *w, int n) {
   if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
 
   if (w->flags & BW_TRACE) {
-    bw_log("purge %s: %s\n", w->name[n], strerror(errno));
+    bw_log("reconnect %s: %s\n", w->name[n], strerror(errno));
   }
   close(w->fd[n]);
   w->fd[n] = -1;
-  w->h->seqno++;
-  w->h->wr[n].pid = 0;
+  if (open_socket(w,n) == 0) {
+    if (w->fd[n] == -1) return;
+    nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+    if (nr >= 0) return;
+    if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
+    close(w->fd[n]);
+    w->fd[n] = -1;
+  }
+  /* have the next bw_sync connect to it */
+  w->seqno = w->h->seqno - 1;
 }
 
 /*
-- 
2.43.0


From 2c2c87eb32e6d88a0db363ce10377a9c860e5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 10/34] fix: retry the lock in shr_close when a signal
 interrupts it

The descriptors and the waiting slot were leaked.
---
 src/shr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 167ecf1..3adb772 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1166,7 +1166,9 @@ void shr_close(struct shr *s) {
 
   /* release bw handles under lock.
    * don't close s->wait_fd- bw does! */
-  if (lock(s->ring_fd) < 0) goto end;
+  while (lock(s->ring_fd) < 0) {
+    if (errno != EINTR) goto end;
+  }
   if (s->w2r) bw_close(s->w2r);
   if (s->r2w) bw_close(s->r2w);
   unlock(s->ring_fd);
-- 
2.43.0


From 6af4f2fd67182c7434735ee2bf272cbd040d3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 11/34] fix: empty the write cache once it is in the ring

When syncing to disk failed after a flush, the next flush wrote the
same messages again.
---
 src/shr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 3adb772..685f31e 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1011,6 +1011,13 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
 
   r->stat.bw += len;
   r->stat.mw += niov;
+
+  /* the write cache, if written, is now in the ring */
+  if (iov == s->c.iov) {
+    s->c.n = 0;
+    s->c.vm = 0;
+  }
+
   if (shr_sync(s) < 0) goto done;
   rc = 0;
 
-- 
2.43.0


From 20113f42bcd5cbd2f5fe25213981f80ad33bbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 12/34] fix: refuse to open a ring for both reading and writing

---
 src/shr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 685f31e..be58d16 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -475,7 +475,8 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  /* exactly one of these modes */
+  if (!(flags & SHR_RDONLY) == !(flags & SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From df600990d4d597c91fd2175a39eda06e2e0f5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 13/34] fix: wake writers before a read frees space

---
 src/shr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index be58d16..9ba8040 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -824,7 +824,11 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
-  /* reached when data is available */
+  /* reached when data is available. wake writers before
+   * space is freed, so dying in between strands no one;
+   * those that we wake wait for the lock */
+  if (l1+l2 <= len) bw_wake(s->r2w);
+
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
     if (l1+l2 > len) break; /* caller buf exhausted */
@@ -852,7 +856,6 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
 
   r->stat.br += nr;
   r->stat.mr += mc;
-  if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From ea5b154d3e730c36e3d393fc43d6ca8239105aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 14/34] fix: free the app data buffer when shr_appdata fails

---
 src/shr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 9ba8040..f78afe2 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1058,6 +1058,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
 int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
   shr_ctrl *r = s->r;
   int rc = -1;
+  void *m = NULL;
   char *ad;
 
   if (lock(s->ring_fd) < 0) goto done;
@@ -1068,7 +1069,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get == NULL) && (set == NULL)) {
     *sz = r->app_len;
-    *get = malloc(*sz);
+    *get = m = malloc(*sz);
     if (*get == NULL) {
       shr_log("out of memory\n");
       goto done;
@@ -1097,6 +1098,10 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
  done:
   unlock(s->ring_fd);
+  if ((rc < 0) && m) {
+    free(m);
+    *get = NULL;
+  }
   return rc;
 }
 
-- 
2.43.0


From 5926db40499fd1606d5e241685c4024fd1e7c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 15/34] fix: allocate the full ring file at creation

---
 src/shr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index f78afe2..a3a41e3 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -255,10 +255,23 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
   if (lock(fd) < 0) /* close() below releases lock */
     goto done;
 
+  sz = sizeof(shr_ctrl) + data_sz + pad + mv_bytes + appsize;
+
+  /* allocate the blocks now, as running out of space when
+   * the mapped ring is written to raises SIGBUS. this also
+   * extends the file, if it all fits; so until then no one
+   * else can map it. permit filesystems not supporting it */
+  do {
+    sc = posix_fallocate(fd, 0, sz);
+  } while (sc == EINTR);
+  if (sc && (sc != EINVAL) && (sc != EOPNOTSUPP)) {
+    shr_log("posix_fallocate %s: %s\n", file, strerror(sc));
+    goto done;
+  }
+
   /* set the ring file size. ftruncate is unimplemented
    * on hugetlbfs, so we permit EINVAL; on that fs, the
    * mmap itself suffices to set ring's length in pages */
-  sz = sizeof(shr_ctrl) + data_sz + pad + mv_bytes + appsize;
   sc = ftruncate(fd, sz);
   if ((sc < 0) && (errno != EINVAL)) {
     shr_log("ftruncate %s: %s\n", file, strerror(errno));
-- 
2.43.0


From cae3138b78b21fe17ccbdb3ea6f35c0315dd2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 16/34] fix: continue a short write of shr-tool read where it
 stopped

---
 util/shr-tool.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..7a3062b 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -654,9 +654,9 @@ int handle_signal(void) {
  */
 int handle_io(void) {
   int rc = -1, sc, fl;
-  ssize_t nr, np;
+  ssize_t nr, np, nw;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -684,8 +684,7 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
+      else for (out = cfg.buf; nr > 0; ) {
         nw = write(STDOUT_FILENO, out, nr);
         if (nw < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
@@ -693,7 +692,7 @@ int handle_io(void) {
         }
         nr -= nw;
         out += nw;
-      } while (nr > 0);
+      }
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
-- 
2.43.0


From bd16e3237287b321d72909f702abac5beb0a4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 17/34] fix: keep publishing after a client resets its
 connection

---
 util/shr-tool.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 7a3062b..99528be 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -564,8 +564,7 @@ int handle_client(void) {
   nr = recv(cfg.pub_fd, buf, sizeof(buf), MSG_DONTWAIT);
   if (nr < 0) {
     fprintf(stderr, "recv: %s\n", strerror(errno) );
-    close_client();
-    return -1;
+    return close_client();
   }
 
   if (nr == 0) {
-- 
2.43.0


From 215498c1e78d05ad10a68ba5a2c7b0b51df6b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 18/34] fix: continue a short write of the frame length in
 shr-tool pub

---
 util/shr-tool.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 99528be..421845e 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -713,13 +713,19 @@ int handle_io(void) {
           goto done;
         }
         len32 = (uint32_t)nr;
-        np = write(cfg.pub_fd, &len32, sizeof(len32));
-        if (np < 0) {
-          fprintf(stderr, "write: %s\n", strerror(errno));
-          if (close_client() < 0) goto done;
-          break;
-        }
-        assert(np == sizeof(len32));
+        out = (char*)&len32;
+        len = sizeof(len32);
+        do {
+          np = write(cfg.pub_fd, out, len);
+          if (np < 0) {
+            fprintf(stderr, "write: %s\n", strerror(errno));
+            if (close_client() < 0) goto done;
+            break;
+          }
+          len -= np;
+          out += np;
+        } while (len > 0);
+        if (len > 0) break; /* client closed */
       }
 
       /* write frame proper */
-- 
2.43.0


From 8d612e6311da3d4a4678197c47007fab200cb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 19/34] fix: keep publishing when a pending connection fails

---
 util/shr-tool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 421845e..43cd2c7 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -592,6 +592,10 @@ int accept_client(void) {
 
   sc = accept(cfg.listen_fd, (struct sockaddr*)&remote, &sz);
   if (sc < 0) {
+    /* the connection failed before we accepted it; see accept(2) */
+    if ((errno == ECONNABORTED) || (errno == EPROTO) ||
+        (errno == ENETDOWN)     || (errno == ENETUNREACH) ||
+        (errno == EHOSTDOWN)    || (errno == EHOSTUNREACH)) rc = 0;
     fprintf(stderr, "accept: %s\n", strerror(errno));
     goto done;
   }
-- 
2.43.0


From 32bdfc97001f2d7ab49c556f24d2347f1c524f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 20/34] fix: make room for the largest frame in the shr-tool
 buffer

---
 util/shr-tool.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 43cd2c7..9f86d64 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -28,19 +28,20 @@ extern char **environ;
  *
  */
 
+/* subscriber safeguard */
+#define MAX_FRAME (1024*1024)
+
 /* we put a couple of buffers out here 
  * to make them go into bss, whereas if
  * they're in the struct below they'd be
  * in the initialized data area and the
- * resulting binary gets much larger */
-#define BUFLEN 1000000
+ * resulting binary gets much larger.
+ * a frame fits with its length prefix */
+#define BUFLEN (MAX_FRAME + sizeof(uint32_t))
 #define NUMIOV (1024 * 1024)
 char buf_bss[BUFLEN];
 struct iovec iov_bss[NUMIOV];
 
-/* subscriber safeguard */
-#define MAX_FRAME (1024*1024)
-
 struct {
   char *prog;
   int verbose;
-- 
2.43.0


From bd489281a72ed14107e4ff459b42398600e45813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 21/34] fix: store a batch of frames larger than the ring in
 parts

---
 util/shr-tool.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 9f86d64..efc6d4c 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -444,17 +444,21 @@ char *map(char *file, size_t *len) {
  * given a buffer of N frames 
  * with a possible partial final frame
  * find message boundaries and write to ring
- * saving the last frame prefix if partial
+ * saving the last frame prefix if partial.
+ * one write holds no more than the whole ring
  */
 int decode_frames(void) {
   char *c, *body, *eob;
-  size_t iov_used=0;
+  size_t iov_used=0, len=0;
+  struct shr_stat stat;
   uint32_t blen;
   int rc = -1;
   ssize_t nr;
 
   assert( cfg.mode == mode_sub );
 
+  if (shr_stat(cfg.shr, &stat, NULL) < 0) goto done;
+
   eob = cfg.buf + cfg.sub_buf_used;
   c = cfg.buf;
   while(1) {
@@ -466,8 +470,18 @@ int decode_frames(void) {
     }
     body = c + sizeof(uint32_t);
     if (body + blen > eob) break;
+    if ((iov_used > 0) && ((len + blen > stat.bn) || (iov_used == stat.mm))) {
+      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      if (nr < 0) {
+        fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+        goto done;
+      }
+      iov_used = 0;
+      len = 0;
+    }
     cfg.sub_iov[ iov_used ].iov_base = body;
     cfg.sub_iov[ iov_used ].iov_len  = blen;
+    len += blen;
     iov_used++;
     if (iov_used == NUMIOV) break;
     c += sizeof(uint32_t) + blen;
-- 
2.43.0


From 02881a5f228e8439d92937dfd5531e64fd6c34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 22/34] fix: write each line of any length and content as one
 message

---
 util/shr-tool.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index efc6d4c..46349d0 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -930,11 +930,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1185,9 +1185,8 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
-        if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
+      while ( (nr = getline(&line, &line_sz, stdin)) > 0) {
+        if (line[nr-1] == '\n') nr--;
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
@@ -1335,6 +1334,7 @@ int main(int argc, char *argv[]) {
   if (cfg.o1) shr_close(cfg.o1);
   if (cfg.o2) shr_close(cfg.o2);
   if (cfg.hex_arg) free(cfg.hex_arg);
+  if (line) free(line);
   // don't free(cfg.fs_type);, default is static string
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
-- 
2.43.0


From 3c96c3a8be7a0a442f715301256e028056c001ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 23/34] fix: skip blank lines in shr-tool write

---
 util/shr-tool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 46349d0..5baa809 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1187,6 +1187,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       while ( (nr = getline(&line, &line_sz, stdin)) > 0) {
         if (line[nr-1] == '\n') nr--;
+        if (nr == 0) continue; /* a message can't be empty */
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
-- 
2.43.0


From 4a6787152eff471d0ff1da5f0462c74d4cedf81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 24/34] fix: fail shr-tool status -A unless the whole app-data
 is written

---
 util/shr-tool.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 5baa809..737d787 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1154,16 +1154,19 @@ int main(int argc, char *argv[]) {
         if (cfg.verbose) printf("%.*s\n", (int)app_len, app_data);
         if (cfg.wfile) {
           int fd = open(cfg.wfile, O_WRONLY|O_CREAT|O_TRUNC, 0644);
+          rc = -1; /* until the whole copy is written */
           if (fd < 0) {
             fprintf(stderr, "open %s: %s\n", cfg.wfile, strerror(errno));
-          } else { 
-            nr = write(fd, app_data, app_len);
+            goto done;
+          }
+          for (size_t off = 0; off < app_len; off += nr) {
+            nr = write(fd, &app_data[off], app_len - off);
             if (nr < 0) {
               fprintf(stderr, "write: %s\n", strerror(errno));
               goto done;
             }
-            close(fd);
           }
+          close(fd);
         }
         free(app_data);
       }
-- 
2.43.0


From 3e831e3c77145a955b074c1d1f10c864d69b4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 25/34] fix: reject characters that are not hex digits in
 shr-tool writehex

---
 util/shr-tool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 737d787..ca27504 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -13,6 +13,7 @@
 #include <string.h>
 #include <assert.h>
 #include <stdlib.h>
+#include <ctype.h>
 #include <unistd.h>
 #include <stdio.h>
 #include <netdb.h>
@@ -198,6 +199,8 @@ int unhex(char *h) {
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
   for(i=0; i < len; i += 2) {
+    if (!isxdigit((unsigned char)h[i]) ||
+        !isxdigit((unsigned char)h[i+1])) goto done;
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
     b = (unsigned char)u;
-- 
2.43.0


From 7004e9b1c1c6eb334c706f5b987cdb3d9e932056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 26/34] fix: keep shr-tool running when it is suspended and
 resumed

---
 util/shr-tool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index ca27504..283cd47 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1317,7 +1317,10 @@ int main(int argc, char *argv[]) {
          ((cfg.mode == mode_read) || (cfg.mode == mode_read_hex))) ? 0 : -1;
 
   do { 
-    ec = epoll_wait(cfg.epoll_fd, &ev, 1, tmo);
+    do { /* suspend and resume interrupts epoll_wait */
+      ec = epoll_wait(cfg.epoll_fd, &ev, 1, tmo);
+    } while ((ec < 0) && (errno == EINTR));
+
     if      (ec < 0)  fprintf(stderr, "epoll: %s\n", strerror(errno));
     else if (ec == 0) /* print no-data */ { if (handle_io()     < 0) goto done;}
     else if (ev.data.fd == cfg.fd)        { if (handle_io()     < 0) goto done;}
-- 
2.43.0


From 498f5399a11a990dcfb3513ea866db0694a7970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 27/34] fix: resume a shr-tool ring write interrupted by
 suspension

---
 util/shr-tool.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 283cd47..6946e70 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -443,6 +443,27 @@ char *map(char *file, size_t *len) {
   return buf;
 }
 
+/*
+ * write to ring, waiting while it is full. the wait
+ * starts over if it is interrupted, which happens 
+ * when the process is suspended and resumed
+ */
+static ssize_t write_ringv(shr *s, struct iovec *iov, size_t niov) {
+  ssize_t nr;
+
+  do {
+    errno = 0;
+    nr = shr_writev(s, iov, niov);
+  } while ((nr == -1) && (errno == EINTR));
+
+  return nr;
+}
+
+static ssize_t write_ring(shr *s, char *buf, size_t len) {
+  struct iovec io = {.iov_base = buf, .iov_len = len };
+  return write_ringv(s, &io, 1);
+}
+
 /*
  * given a buffer of N frames 
  * with a possible partial final frame
@@ -474,7 +495,7 @@ int decode_frames(void) {
     body = c + sizeof(uint32_t);
     if (body + blen > eob) break;
     if ((iov_used > 0) && ((len + blen > stat.bn) || (iov_used == stat.mm))) {
-      nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+      nr = write_ringv(cfg.shr, cfg.sub_iov, iov_used);
       if (nr < 0) {
         fprintf(stderr,"shr_writev: error (%zd)\n", nr);
         goto done;
@@ -495,7 +516,7 @@ int decode_frames(void) {
     goto done;
   }
 
-  nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
+  nr = write_ringv(cfg.shr, cfg.sub_iov, iov_used);
   if (nr < 0) {
     fprintf(stderr,"shr_writev: error (%zd)\n", nr);
     goto done;
@@ -771,11 +792,11 @@ int handle_io(void) {
         rc = 0;
         goto done;
       }
-      if (shr_write(cfg.o1, cfg.buf, nr) < 0) {
+      if (write_ring(cfg.o1, cfg.buf, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
-      if (shr_write(cfg.o2, cfg.buf, nr) < 0) {
+      if (write_ring(cfg.o2, cfg.buf, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
@@ -1194,7 +1215,7 @@ int main(int argc, char *argv[]) {
       while ( (nr = getline(&line, &line_sz, stdin)) > 0) {
         if (line[nr-1] == '\n') nr--;
         if (nr == 0) continue; /* a message can't be empty */
-        if (shr_write(cfg.shr, line, nr) < 0) {
+        if (write_ring(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
           goto done;
         }
@@ -1207,7 +1228,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       nr = unhex(cfg.hex_arg);
       if (nr <= 0) goto done;
-      if (shr_write(cfg.shr, cfg.hex_arg, nr) < 0) {
+      if (write_ring(cfg.shr, cfg.hex_arg, nr) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
@@ -1219,7 +1240,7 @@ int main(int argc, char *argv[]) {
       if (cfg.shr == NULL) goto done;
       cfg.wfile_buf = map(cfg.wfile, &cfg.wfile_len);
       if (cfg.wfile_buf == NULL) goto done;
-      if (shr_write(cfg.shr, cfg.wfile_buf, cfg.wfile_len) < 0) {
+      if (write_ring(cfg.shr, cfg.wfile_buf, cfg.wfile_len) < 0) {
         fprintf(stderr, "shr_write: error\n");
         goto done;
       }
-- 
2.43.0


From 6f216b4cf432e98e2cfa2cb6c908a1b536bbae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 28/34] fix: do not mount on a directory that cannot be
 examined

The mount command only refused when the directory was known to be a RAM
disk. When the examination itself failed (stat or statfs error, path too
long) it went on and could stack one RAM disk on another.
---
 util/shr-tool.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 6946e70..88f9cb8 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1065,10 +1065,9 @@ int main(int argc, char *argv[]) {
       switch (cfg.mount_mode) {
         case mnt_mount:
         case mnt_make_subdirs:
-          if (suitable_mountpoint(cfg.mountpoint, &sb, &sf) == -2) {
-            printf("%s: already a ramdisk\n", cfg.mountpoint);
-            goto done;
-          }
+          sc = suitable_mountpoint(cfg.mountpoint, &sb, &sf);
+          if (sc == -2) printf("%s: already a ramdisk\n", cfg.mountpoint);
+          if (sc < 0) goto done;
           snprintf(opts, sizeof(opts), "size=%zu", cfg.size);
           data = cfg.size ? opts : NULL;
           sc = mount("shr", cfg.mountpoint, cfg.fs_type, MS_NOATIME, data);
-- 
2.43.0


From 23a770b53c59dc1920b316803a4fbefa67500fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 29/34] fix: query of a tmpfs without size limit divided by
 zero

A tmpfs mounted with size=0 reports no blocks. The utilization printed for
it came from converting NaN to int.
---
 util/shr-tool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 88f9cb8..86e0ee6 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -391,6 +391,12 @@ int query_ramdisk(char *ramdisk) {
     return 0;
   }
 
+  /* tmpfs mounted with size=0 has no limit */
+  if (sf.f_blocks == 0) {
+    printf("%s: tmpfs (unbounded size)\n", ramdisk);
+    return 0;
+  }
+
   char szb[100];
   long bytes = sf.f_bsize*sf.f_blocks;
   if (bytes < KB) snprintf(szb, sizeof(szb), "%ld bytes", bytes);
-- 
2.43.0


From 3de1d80a2715bbe0b55304fb2a95c780fa4ddedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 30/34] fix: mount command worked on another directory for
 paths such as .

The directory was looked up again for each step. After something is
mounted on it, a path such as . or sub/.. no longer leads to the RAM
disk: subdirectories were made in the covered directory, the command
failed after mounting, or a RAM disk was stacked on the previous one.
Resolve the path once.
---
 util/shr-tool.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 86e0ee6..306756c 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -72,6 +72,7 @@ struct {
   char *wfile_buf;
   size_t wfile_len;
   char *mountpoint;
+  char *target;
   char *fs_type;
   enum {mnt_mount,
         mnt_make_subdirs,
@@ -372,11 +373,11 @@ int suitable_mountpoint(char *dir, struct stat *sb, struct statfs *sf) {
 #define KB 1024L
 #define MB (1024*1024L)
 #define GB (1024*1024*1024L)
-int query_ramdisk(char *ramdisk) {
+int query_ramdisk(char *ramdisk, char *target) {
   struct stat sb;
   struct statfs sf;
 
-  if (suitable_mountpoint(ramdisk, &sb, &sf) != -2) {
+  if ((target == NULL) || (suitable_mountpoint(target, &sb, &sf) != -2)) {
     printf("%s: not a ramdisk\n", ramdisk);
     return -1;
   }
@@ -1068,20 +1069,27 @@ int main(int argc, char *argv[]) {
     case mode_mount:
       cfg.mountpoint = argv[optind++];
       one_shot=1;
+      /* resolve once. a path such as . or sub/.. means another
+       * directory after something is mounted on the one it names */
+      cfg.target = realpath(cfg.mountpoint, NULL);
+      if (cfg.target == NULL) {
+        fprintf(stderr, "no mount point %s: %s\n", cfg.mountpoint, strerror(errno));
+        if (cfg.mount_mode != mnt_query) goto done;
+      }
       switch (cfg.mount_mode) {
         case mnt_mount:
         case mnt_make_subdirs:
-          sc = suitable_mountpoint(cfg.mountpoint, &sb, &sf);
+          sc = suitable_mountpoint(cfg.target, &sb, &sf);
           if (sc == -2) printf("%s: already a ramdisk\n", cfg.mountpoint);
           if (sc < 0) goto done;
           snprintf(opts, sizeof(opts), "size=%zu", cfg.size);
           data = cfg.size ? opts : NULL;
-          sc = mount("shr", cfg.mountpoint, cfg.fs_type, MS_NOATIME, data);
+          sc = mount("shr", cfg.target, cfg.fs_type, MS_NOATIME, data);
           if (sc < 0) {
             fprintf(stderr, "mount %s: %s\n", cfg.mountpoint, strerror(errno));
             goto done;
           }
-          sc = chdir(cfg.mountpoint);
+          sc = chdir(cfg.target);
           if (sc < 0) {
             fprintf(stderr, "chdir %s: %s\n", cfg.mountpoint, strerror(errno));
             goto done;
@@ -1111,14 +1119,14 @@ int main(int argc, char *argv[]) {
           }
           break;
         case mnt_unmount:
-          sc = umount(cfg.mountpoint);
+          sc = umount(cfg.target);
           if (sc < 0) {
             fprintf(stderr, "umount: %s\n", strerror(errno));
             goto done;
           }
           break;
         case mnt_query:
-          query_ramdisk(cfg.mountpoint);
+          query_ramdisk(cfg.mountpoint, cfg.target);
           break;
         default:
           fprintf(stderr, "unimplemented mode\n");
@@ -1375,6 +1383,7 @@ int main(int argc, char *argv[]) {
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
   if (cfg.wfile) free(cfg.wfile);
   if (cfg.addr_spec) free(cfg.addr_spec);
+  if (cfg.target) free(cfg.target);
   return rc;
 }
 
-- 
2.43.0


From 45457467a2e13f088640debe8d04c30524d9f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:13 +0000
Subject: [PATCH 31/34] fix: bw-tool wait -w reported success when its wait
 failed

---
 lib/bw-tool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bw-tool.c b/lib/bw-tool.c
index a58e72f..b5d1594 100644
--- a/lib/bw-tool.c
+++ b/lib/bw-tool.c
@@ -242,7 +242,10 @@ int main(int argc, char *argv[]) {
     if (CF.wait_use_api) {
       sc = bw_wait_ul(bw);
       if (sc ==  0) fprintf(stderr, "bw_wait_ul: awoken\n");
-      if (sc == -1) fprintf(stderr, "bw_wait_ul: error\n");
+      if (sc == -1) {
+        fprintf(stderr, "bw_wait_ul: error\n");
+        goto done;
+      }
       if (sc == -2) {
         fprintf(stderr, "bw_wait_ul: signal while blocked\n");
         handle_signal(signal_fd);
-- 
2.43.0


From cafdd4a2312cf12b38072e6dd3227a04895a4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 32/34] fix: readhex stops when its output fails instead of
 discarding the ring's messages

---
 util/shr-tool.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 306756c..2ccaa17 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -172,7 +172,7 @@ void usage() {
 void hexdump(char *buf, size_t len) {
   size_t i,n=0;
   unsigned char c;
-  while(n < len) {
+  while((n < len) && (ferror(stdout) == 0)) {
     fprintf(stdout,"%08x ", (int)n);
     for(i=0; i < 16; i++) {
       c = (n+i < len) ? buf[n+i] : 0;
@@ -742,7 +742,10 @@ int handle_io(void) {
         nr -= nw;
         out += nw;
       }
-      fflush(stdout);
+      if ((fflush(stdout) != 0) || ferror(stdout)) {
+        fprintf(stderr, "write: %s\n", strerror(errno));
+        goto done;
+      }
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
         goto done;
-- 
2.43.0


From 18a951c0c15d87fd3af2214c9540d1bfcc1f6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 33/34] fix: status fails when what it prints cannot be written

---
 util/shr-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 2ccaa17..a6b3934 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1210,6 +1210,11 @@ int main(int argc, char *argv[]) {
         }
         free(app_data);
       }
+      if ((fflush(stdout) != 0) || ferror(stdout)) {
+        fprintf(stderr, "write: %s\n", strerror(errno));
+        rc = -1;
+        goto done;
+      }
       break;
 
     case mode_pub:
-- 
2.43.0


From b5586ed394b8e031f14a8179d94d17e34a94bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:19 +0000
Subject: [PATCH 34/34] fix: bw_open accepted both waiting and waking at once

---
 lib/bw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index 8e726e5..0ed143c 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -347,7 +347,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   va_list ap;
   va_start(ap, h);
 
-  if (((flags & BW_WAKE) ^ (flags & BW_WAIT)) == 0) {
+  if (!(flags & BW_WAKE) == !(flags & BW_WAIT)) {
     bw_log("bw_open: invalid mode\n");
     goto done;
   }
-- 
2.43.0

