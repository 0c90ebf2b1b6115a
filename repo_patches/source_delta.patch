From 71518d0867846c16a63833087fe23bcd648a1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 01/12] fix: keep the oldest-frame index in step with the frame
 slot rotation

task_thread.first tells the workers which frame context is the oldest. It
was only advanced when the slot being reused was occupied, while
frame_thread.next always moves on. After a partial drain followed by new
data the two diverge, and a younger frame is then scheduled as if it were
older than the frame it refers to. The progress of the older frame never
triggers a new look at the younger frame's tasks, and decoding deadlocks.
---
 src/decode.c | 20 +++++++++-----------
 src/lib.c    | 18 +++++++++---------
 src/obu.c    | 20 +++++++++-----------
 3 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..d4c410a 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3343,17 +3343,15 @@ int dav1d_submit_frame(Dav1dContext *const c) {
             pthread_cond_wait(&f->task_thread.cond,
                               &c->task_thread.lock);
         out_delayed = &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
-        }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         const int error = f->task_thread.retval;
         if (error) {
             f->task_thread.retval = 0;
diff --git a/src/lib.c b/src/lib.c
index 8ced796..fe617d4 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -361,20 +361,20 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
         if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-            unsigned first = atomic_load(&c->task_thread.first);
-            if (first + 1U < c->n_fc)
-                atomic_fetch_add(&c->task_thread.first, 1U);
-            else
-                atomic_store(&c->task_thread.first, 0);
-            atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                           &first, UINT_MAX);
-            if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                c->task_thread.cur--;
             drained = 1;
         } else if (drained) {
             pthread_mutex_unlock(&c->task_thread.lock);
             break;
         }
+        unsigned first = atomic_load(&c->task_thread.first);
+        if (first + 1U < c->n_fc)
+            atomic_fetch_add(&c->task_thread.first, 1U);
+        else
+            atomic_store(&c->task_thread.first, 0);
+        atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                       &first, UINT_MAX);
+        if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+            c->task_thread.cur--;
         if (++c->frame_thread.next == c->n_fc)
             c->frame_thread.next = 0;
         pthread_mutex_unlock(&c->task_thread.lock);
diff --git a/src/obu.c b/src/obu.c
index 78d652b..42b277d 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1616,17 +1616,15 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                                       &f->task_thread.ttd->lock);
                 Dav1dThreadPicture *const out_delayed =
                     &c->frame_thread.out_delayed[next];
-                if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
-                    unsigned first = atomic_load(&c->task_thread.first);
-                    if (first + 1U < c->n_fc)
-                        atomic_fetch_add(&c->task_thread.first, 1U);
-                    else
-                        atomic_store(&c->task_thread.first, 0);
-                    atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
-                                                   &first, UINT_MAX);
-                    if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
-                        c->task_thread.cur--;
-                }
+                unsigned first = atomic_load(&c->task_thread.first);
+                if (first + 1U < c->n_fc)
+                    atomic_fetch_add(&c->task_thread.first, 1U);
+                else
+                    atomic_store(&c->task_thread.first, 0);
+                atomic_compare_exchange_strong(&c->task_thread.reset_task_cur,
+                                               &first, UINT_MAX);
+                if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
+                    c->task_thread.cur--;
                 const int error = f->task_thread.retval;
                 if (error) {
                     c->cached_error = error;
-- 
2.43.0


From d2473bdc14301ac7fcfc674c1d0f6a4cb3682128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 02/12] fix: don't take the error of an already drained frame
 slot for a pending frame

---
 src/lib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index fe617d4..0c1008d 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -360,7 +360,9 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                               &f->task_thread.ttd->lock);
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
+        // the slot is consumed: don't mistake its error for a pending frame later
+        const int frame_error = atomic_exchange(&f->task_thread.error, 0);
+        if (out_delayed->p.data[0] || frame_error) {
             drained = 1;
         } else if (drained) {
             pthread_mutex_unlock(&c->task_thread.lock);
-- 
2.43.0


From bdd382e14b5ff02c9b8b821318acc73873c99b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 03/12] fix: report a parse or submission error even if a
 picture became ready meanwhile

---
 src/lib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index 0c1008d..ec2b660 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -426,10 +426,10 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
-            break;
         if (res < 0)
             return (int)res;
+        if (output_picture_ready(c, 0))
+            break;
     }
 
     return 0;
-- 
2.43.0


From 417fef33544a2c5e6160700a88f1c92b04ac679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 04/12] fix: drop the frame header when an existing frame can't
 be shown

---
 src/obu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 42b277d..ad6e635 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1729,6 +1729,9 @@ skip:
     return gb.ptr_end - gb.ptr_start;
 
 error:
+    // a frame that can't be shown must not make all following OBUs fail as well
+    if (c->frame_hdr && c->frame_hdr->show_existing_frame)
+        c->frame_hdr = NULL;
     dav1d_data_props_copy(&c->cached_error_props, &in->m);
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
-- 
2.43.0


From 072399d9a43b21d8655c24a50b5cf5dc67fc6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 05/12] fix: let dav1d_flush() drop pending tile data and the
 state of the old stream

---
 src/lib.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index ec2b660..2e6693e 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -540,8 +540,15 @@ void dav1d_flush(Dav1dContext *const c) {
         dav1d_ref_dec(&c->refs[i].refmvs);
         dav1d_cdf_thread_unref(&c->cdf[i]);
     }
+    for (int i = 0; i < c->n_tile_data; i++)
+        dav1d_data_unref_internal(&c->tile[i].data);
+    c->n_tile_data = 0;
+    c->n_tiles = 0;
     c->frame_hdr = NULL;
+    c->frame_flags = 0;
     c->seq_hdr = NULL;
+    c->operating_point_idc = 0;
+    c->max_spatial_id = 0;
     dav1d_ref_dec(&c->seq_hdr_ref);
 
     c->mastering_display = NULL;
-- 
2.43.0


From f1bce66ad974184df8e706e658a17bfaa7bc04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 06/12] fix: don't divide by zero opening an IVF file without
 frames

---
 tools/input/ivf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index d1fa05e..51e0c2b 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -124,7 +124,7 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         fps[0] = fps[1] = 0;
     }
     c->timebase = (double)timebase[0] / timebase[1];
-    c->step = duration / *num_frames;
+    c->step = *num_frames ? duration / *num_frames : 0;
 
     fseeko(c->f, 32, SEEK_SET);
     c->last_ts = 0;
-- 
2.43.0


From 2368b6267cc7ab33c244c34328d71aad2151ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 07/12] fix: don't probe uninitialised memory behind the end of
 a short input file

---
 tools/input/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/input.c b/tools/input/input.c
index 2dfaa97..efde79a 100644
--- a/tools/input/input.c
+++ b/tools/input/input.c
@@ -77,7 +77,7 @@ int input_open(DemuxerContext **const c_out,
         int probe_sz = 0;
         for (i = 0; demuxers[i]; i++)
             probe_sz = imax(probe_sz, demuxers[i]->probe_sz);
-        uint8_t *const probe_data = malloc(probe_sz);
+        uint8_t *const probe_data = calloc(1, probe_sz);
         if (!probe_data) {
             fprintf(stderr, "Failed to allocate memory\n");
             return DAV1D_ERR(ENOMEM);
-- 
2.43.0


From 25eb60f5dd93d266cbcc39223c23f813985bf4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 08/12] fix: don't leak ITU-T T.35 metadata when its allocation
 fails halfway

---
 src/obu.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index ad6e635..ac0f071 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1517,7 +1517,11 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
@@ -1530,7 +1534,14 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
 
             Dav1dITUTT35 *const itut_t35_metadata = &c->itut_t35[c->n_itut_t35];
             itut_t35_metadata->payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!itut_t35_metadata->payload) goto error;
+            if (!itut_t35_metadata->payload) {
+                itut_t35_ctx->n_itut_t35 = c->n_itut_t35;
+                if (!c->n_itut_t35) {
+                    dav1d_ref_dec(&c->itut_t35_ref);
+                    c->itut_t35 = NULL;
+                }
+                goto error;
+            }
 
             itut_t35_metadata->country_code = country_code;
             itut_t35_metadata->country_code_extension_byte = country_code_extension_byte;
-- 
2.43.0


From 26666c3bdd87cea00a229c83fd9ae7a4d0781c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 09/12] fix: don't read before the probe buffer on oversized
 OBUs

---
 tools/input/annexb.c | 4 ++--
 tools/input/parse.h  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/input/annexb.c b/tools/input/annexb.c
index 8add61c..a06fdda 100644
--- a/tools/input/annexb.c
+++ b/tools/input/annexb.c
@@ -78,7 +78,7 @@ static int annexb_probe(const uint8_t *data) {
                            &obu_size, &type, 1);
     if (ret < 0 || type != DAV1D_OBU_TD || obu_size > 0)
         return 0;
-    cnt += (int)obu_unit_size;
+    cnt += obu_unit_size < PROBE_SIZE ? (int) obu_unit_size : PROBE_SIZE;
 
     // look for first frame and accompanying sequence header
     int seq = 0;
@@ -94,7 +94,7 @@ static int annexb_probe(const uint8_t *data) {
                                &obu_size, &type, 1);
         if (ret < 0)
             return 0;
-        cnt += (int)obu_unit_size;
+        cnt += obu_unit_size < PROBE_SIZE ? (int) obu_unit_size : PROBE_SIZE;
 
         switch (type) {
         case DAV1D_OBU_SEQ_HDR:
diff --git a/tools/input/parse.h b/tools/input/parse.h
index f39f80f..c38bc6a 100644
--- a/tools/input/parse.h
+++ b/tools/input/parse.h
@@ -100,7 +100,9 @@ static inline int parse_obu_header(const uint8_t *buf, int buf_size,
         ret = leb(buf, buf_size, obu_size);
         if (ret < 0)
             return -1;
-        return (int) *obu_size + ret + 1 + extension_flag;
+        // large sizes can only lead past the end of any probe buffer
+        return (int) (*obu_size < INT_MAX / 2 ? *obu_size : INT_MAX / 2) +
+               ret + 1 + extension_flag;
     } else if (!allow_implicit_size)
         return -1;
 
-- 
2.43.0


From a24bcc732ff84969fe37da078941ebd302b1ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 10/12] fix: don't reuse missing tile state after its
 allocation failed

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index d4c410a..849b3ba 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


From 9b29d3e8b67369b1f71c2f4261b45df00137e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 11/12] fix: report a failed task allocation with a single
 frame context

---
 src/decode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 849b3ba..624553d 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3306,9 +3306,11 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                     pthread_cond_wait(&f->task_thread.cond,
                                       &f->task_thread.ttd->lock);
                 }
+                res = f->task_thread.retval;
+            } else {
+                res = DAV1D_ERR(ENOMEM);
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From 90253269ea070c42f35cd328a83dcfebc4201a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 12/12] fix: don't crash or deadlock when a frame's tasks can't
 be allocated

---
 src/thread_task.c | 47 ++++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..b2bd200 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -232,18 +232,19 @@ static int create_filter_sbrow(Dav1dFrameContext *const f,
     }
     tasks += f->sbh * (pass & 1);
 
+    const int prog_sz = ((f->sbh + 31) & ~31) >> 5;
+    if (prog_sz > f->frame_thread.prog_sz) {
+        atomic_uint *const prog = dav1d_realloc(ALLOC_COMMON_CTX, f->frame_thread.frame_progress,
+                                                2 * prog_sz * sizeof(*prog));
+        if (!prog) return -1;
+        f->frame_thread.frame_progress = prog;
+        f->frame_thread.copy_lpf_progress = prog + prog_sz;
+    }
+    f->frame_thread.prog_sz = prog_sz;
+
     if (pass & 1) {
         f->frame_thread.entropy_progress = 0;
     } else {
-        const int prog_sz = ((f->sbh + 31) & ~31) >> 5;
-        if (prog_sz > f->frame_thread.prog_sz) {
-            atomic_uint *const prog = dav1d_realloc(ALLOC_COMMON_CTX, f->frame_thread.frame_progress,
-                                                    2 * prog_sz * sizeof(*prog));
-            if (!prog) return -1;
-            f->frame_thread.frame_progress = prog;
-            f->frame_thread.copy_lpf_progress = prog + prog_sz;
-        }
-        f->frame_thread.prog_sz = prog_sz;
         memset(f->frame_thread.frame_progress, 0, prog_sz * sizeof(atomic_uint));
         memset(f->frame_thread.copy_lpf_progress, 0, prog_sz * sizeof(atomic_uint));
         atomic_store(&f->frame_thread.deblock_progress, 0);
@@ -715,29 +716,13 @@ void *dav1d_worker_task(void *data) {
             if (f->frame_hdr->refresh_context && !f->task_thread.update_set) {
                 atomic_store(f->out_cdf.progress, res < 0 ? TILE_ERROR : 1);
             }
+            // creating the tasks of the first pass allocates memory for both,
+            // hence only that can fail, while no task has been queued yet
+            if (!res && dav1d_task_create_tile_sbrow(f, 1, 0))
+                res = DAV1D_ERR(ENOMEM);
             if (!res) {
-                assert(c->n_fc > 1);
-                for (int p = 1; p <= 2; p++) {
-                    const int res = dav1d_task_create_tile_sbrow(f, p, 0);
-                    if (res) {
-                        pthread_mutex_lock(&ttd->lock);
-                        // memory allocation failed
-                        atomic_store(&f->task_thread.done[2 - p], 1);
-                        atomic_store(&f->task_thread.error, -1);
-                        atomic_fetch_sub(&f->task_thread.task_counter,
-                                         f->frame_hdr->tiling.cols *
-                                         f->frame_hdr->tiling.rows + f->sbh);
-                        atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
-                        if (p == 2 && atomic_load(&f->task_thread.done[1])) {
-                            assert(!atomic_load(&f->task_thread.task_counter));
-                            dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
-                            f->n_tile_data = 0;
-                            pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
-                        }
-                    }
-                }
+                res = dav1d_task_create_tile_sbrow(f, 2, 0);
+                assert(!res);
                 pthread_mutex_lock(&ttd->lock);
             } else {
                 pthread_mutex_lock(&ttd->lock);
-- 
2.43.0

