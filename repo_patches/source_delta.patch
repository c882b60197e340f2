From 45a60165c8b8eb32b2324641e86fb766071afe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 01/48] fix: mpi3 strided nonblocking accumulate with a complex
 scale used the already overwritten real part

---
 comex/src-mpi3/comex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..a09cf45 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2712,8 +2712,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(float));
       buf = (float*)packbuf;
       for (i=0; i<nvar; i++) {
+        float tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(float);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
@@ -2727,8 +2728,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(double));
       buf = (double*)packbuf;
       for (i=0; i<nvar; i++) {
+        double tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(double);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
-- 
2.43.0


From 0db3fd89744c1954cf0ab44c4027d78c05bdc149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 02/48] fix: mpi3 nonblocking accumulate released its origin
 buffer before the operation completed

---
 comex/src-mpi3/comex.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index a09cf45..b0f43b6 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -94,6 +94,7 @@ typedef struct {
   MPI_Datatype src_type;
   MPI_Datatype dst_type;
   int active;
+  void *acc_buf; /* origin buffer of an accumulate, in use until completion */
 #ifdef USE_MPI_FLUSH_LOCAL
   int remote_proc;
 #else
@@ -254,6 +255,7 @@ int _comex_init(MPI_Comm comm)
     for (i=0; i<nb_max_outstanding; i++) {
       nb_list[i] = (nb_t*)malloc(sizeof(nb_t));
       nb_list[i]->active = 0;
+      nb_list[i]->acc_buf = NULL;
     }
 #endif
 
@@ -2047,6 +2049,7 @@ int comex_finalize()
     /* Clean up request list */
 #ifdef USE_MPI_REQUESTS
     for (i=0; i<nb_max_outstanding; i++) {
+      free(nb_list[i]->acc_buf);
       free(nb_list[i]);
     }
     free(nb_list);
@@ -2091,6 +2094,8 @@ int comex_wait(comex_request_t* hdl)
     printf("p[%d] comex_wait Error: handle not active\n",l_state.rank);
   }
   nb_list[*hdl]->active = 0;
+  free(nb_list[*hdl]->acc_buf);
+  nb_list[*hdl]->acc_buf = NULL;
   if (nb_list[*hdl]->use_type) {
     ierr = MPI_Type_free(&(nb_list[*hdl]->src_type));
     translate_mpi_error(ierr,"comex_wait:MPI_Type_free");
@@ -2127,6 +2132,8 @@ int comex_test(comex_request_t* hdl, int *status)
       /* operation is complete */
       *status = 0;
       nb_list[*hdl]->active = 0;
+      free(nb_list[*hdl]->acc_buf);
+      nb_list[*hdl]->acc_buf = NULL;
       if (nb_list[*hdl]->use_type) {
         ierr = MPI_Type_free(&(nb_list[*hdl]->src_type));
         translate_mpi_error(ierr,"comex_wait:MPI_Type_free");
@@ -2328,7 +2335,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else if (datatype == COMEX_ACC_LNG) {
       long *buf;
       long *lsrc = (long*)src_ptr;
@@ -2352,7 +2359,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else if (datatype == COMEX_ACC_FLT) {
       float *buf;
       float *fsrc = (float*)src_ptr;
@@ -2376,7 +2383,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else if (datatype == COMEX_ACC_DBL) {
       double *buf;
       double *dsrc = (double*)src_ptr;
@@ -2400,7 +2407,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else if (datatype == COMEX_ACC_CPL) {
       int cnum;
       float *buf;
@@ -2428,7 +2435,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else if (datatype == COMEX_ACC_DCP) {
       int cnum;
       double *buf;
@@ -2456,7 +2463,7 @@ int comex_nbacc(
       req->request = request;
       req->use_type = 0;
       req->active = 1;
-      free(buf);
+      req->acc_buf = buf;
     } else {
       assert(0);
     }
@@ -2767,7 +2774,7 @@ int comex_nbaccs(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(packbuf);
+    req->acc_buf = packbuf;
 
     return COMEX_SUCCESS;
 #else
@@ -2989,7 +2996,7 @@ int comex_nbaccv(
     req->remote_proc = lproc;
     req->win = reg_win->win;
     req->active = 1;
-    free(src_ptr);
+    req->acc_buf = src_ptr;
     return COMEX_SUCCESS;
 #else
     return comex_accv(datatype, scale, iov, iov_len, proc, group);
-- 
2.43.0


From 4b000cc1e3f6b80ce7a4fd7b41860db09ab4f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 03/48] fix: mpi-mt and mpi-pt aborted a program that holds
 every nonblocking handle

Eight outstanding requests (the mpi-mt default) were enough. Every handle has
already been completed by then, so reuse one, as mpi-pr does.
---
 comex/src-mpi-mt/comex.c | 12 +++---------
 comex/src-mpi-pt/comex.c | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..fffbeef 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -2819,20 +2819,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* when the user holds every handle, reuse one: all its events have been
+     * processed, so a wait on the earlier use has nothing left to complete */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..8bbda3d 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4128,20 +4128,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* when the user holds every handle, reuse one: all its events have been
+     * processed, so a wait on the earlier use has nothing left to complete */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
-- 
2.43.0


From 3d7fa1aa6fed115c2750965747a71c854fbeca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 04/48] fix: mpi-pt did not order shared-memory accesses and
 fences after its own earlier server requests

A put or accumulate sent to a progress thread could still be in flight when the
same process next touched the data through shared memory, and a fence on a
process other than the master was skipped altogether. Fence the master, as
mpi-pr does.
---
 comex/src-mpi-pt/comex.c | 52 ++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 8bbda3d..b5a18b8 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -825,33 +825,18 @@ int comex_fence_all(comex_group_t group)
 }
 
 
-int comex_fence_proc(int proc, comex_group_t group)
+/* complete everything this process has sent to the given master */
+STATIC void _fence_master(int master_rank)
 {
-    int world_proc = -1;
-    comex_igroup_t *igroup = NULL;
-
-#if DEBUG
-    printf("[%d] comex_fence_proc(proc=%d, group=%d)\n",
-            g_state.rank, proc, group);
-#endif
-
-    CHECK_GROUP(group,proc);
-    igroup = comex_get_igroup_from_group(group);
-    world_proc = _get_world_rank(igroup, proc);
-
     /* optimize by only sending to procs which we have outstanding messages */
-    if (fence_array[world_proc]) {
-        int p_master = g_state.master[world_proc];
+    if (fence_array[master_rank]) {
         header_t *header = NULL;
         nb_t *nb = NULL;
 
         nb = nb_wait_for_handle();
 
-        /* because we only fence to masters */
-        COMEX_ASSERT(p_master == world_proc);
-
         /* prepost recv for acknowledgment */
-        nb_recv(NULL, 0, p_master, nb);
+        nb_recv(NULL, 0, master_rank, nb);
 
         /* post send of fence request */
         header = malloc(sizeof(header_t));
@@ -861,10 +846,29 @@ int comex_fence_proc(int proc, comex_group_t group)
         header->local_address = NULL;
         header->length = 0;
         header->rank = 0;
-        nb_send_header(header, sizeof(header_t), p_master, nb);
+        nb_send_header(header, sizeof(header_t), master_rank, nb);
         nb_wait_for_all(nb);
-        fence_array[world_proc] = 0;
+        fence_array[master_rank] = 0;
     }
+}
+
+
+int comex_fence_proc(int proc, comex_group_t group)
+{
+    int world_proc = -1;
+    comex_igroup_t *igroup = NULL;
+
+#if DEBUG
+    printf("[%d] comex_fence_proc(proc=%d, group=%d)\n",
+            g_state.rank, proc, group);
+#endif
+
+    CHECK_GROUP(group,proc);
+    igroup = comex_get_igroup_from_group(group);
+    world_proc = _get_world_rank(igroup, proc);
+
+    /* because we only fence to masters */
+    _fence_master(g_state.master[world_proc]);
 
     return COMEX_SUCCESS;
 }
@@ -4325,6 +4329,7 @@ STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb)
 #if ENABLE_PUT_SELF
     /* put to self */
     if (g_state.rank == proc) {
+        _fence_master(g_state.master[proc]);
         memcpy(dst, src, bytes);
         return;
     }
@@ -4336,6 +4341,7 @@ STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb)
         reg_entry_t *reg_entry = NULL;
         void *mapped_offset = NULL;
 
+        _fence_master(g_state.master[proc]);
         reg_entry = reg_cache_find(proc, dst, bytes);
         COMEX_ASSERT(reg_entry);
         mapped_offset = _get_offset_memory(reg_entry, dst);
@@ -4375,6 +4381,7 @@ STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb)
 #if ENABLE_GET_SELF
     /* get from self */
     if (g_state.rank == proc) {
+        _fence_master(g_state.master[proc]);
         memcpy(dst, src, bytes);
         return;
     }
@@ -4386,6 +4393,7 @@ STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb)
         reg_entry_t *reg_entry = NULL;
         void *mapped_offset = NULL;
 
+        _fence_master(g_state.master[proc]);
         reg_entry = reg_cache_find(proc, src, bytes);
         COMEX_ASSERT(reg_entry);
         mapped_offset = _get_offset_memory(reg_entry, src);
@@ -4425,6 +4433,7 @@ STATIC void nb_acc(int datatype, void *scale,
 #if ENABLE_ACC_SELF
     /* acc to self */
     if (g_state.rank == proc) {
+        _fence_master(g_state.master[proc]);
         sem_wait(semaphores[proc]);
         _acc(datatype, bytes, dst, src, scale);
         sem_post(semaphores[proc]);
@@ -4438,6 +4447,7 @@ STATIC void nb_acc(int datatype, void *scale,
         reg_entry_t *reg_entry = NULL;
         void *mapped_offset = NULL;
 
+        _fence_master(g_state.master[proc]);
         reg_entry = reg_cache_find(proc, dst, bytes);
         COMEX_ASSERT(reg_entry);
         mapped_offset = _get_offset_memory(reg_entry, dst);
-- 
2.43.0


From 8e5e47bf1f11071b9ab98820a80c509ac27c38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 05/48] fix: mpi-mt and mpi-pt nonblocking accumulate read the
 caller's scale after returning

The scale was sent from the caller's storage by a nonblocking send; copy it, as
the contiguous mpi-pt path, mpi-ts and mpi-pr do.
---
 comex/src-mpi-mt/comex.c | 18 +++++++++++++++---
 comex/src-mpi-pt/comex.c | 16 ++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index fffbeef..e2d509d 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -183,6 +183,7 @@ STATIC void _unlock_handler(header_t *header, int proc);
 STATIC void nb_send_common(void *buf, int count, int dest, nb_t *nb, int need_free);
 STATIC void nb_send_header(void *buf, int count, int dest, nb_t *nb);
 STATIC void nb_send_buffer(void *buf, int count, int dest, nb_t *nb);
+STATIC void nb_send_copy(const void *buf, int count, int dest, nb_t *nb);
 STATIC void nb_recv_packed(void *buf, int count, int source, nb_t *nb, stride_t *stride);
 STATIC void nb_recv_iov(void *buf, int count, int source, nb_t *nb, comex_giov_t *iov);
 STATIC void nb_recv(void *buf, int count, int source, nb_t *nb);
@@ -2678,6 +2679,17 @@ STATIC void nb_send_buffer(void *buf, int count, int dest, nb_t *nb)
 }
 
 
+/* send a small argument whose storage belongs to the caller */
+STATIC void nb_send_copy(const void *buf, int count, int dest, nb_t *nb)
+{
+    void *copy = malloc(count);
+
+    COMEX_ASSERT(copy);
+    (void)memcpy(copy, buf, count);
+    nb_send_header(copy, count, dest, nb);
+}
+
+
 STATIC void nb_recv_packed(void *buf, int count, int source, nb_t *nb, stride_t *stride)
 {
     int retval = 0;
@@ -3148,7 +3160,7 @@ STATIC void nb_acc(int datatype, void *scale,
         header->rank = proc;
         header->length = bytes;
         nb_send_header(header, sizeof(header_t), proc, nb);
-        nb_send_buffer(scale, scale_size, proc, nb);
+        nb_send_copy(scale, scale_size, proc, nb);
         nb_send_buffer(src, bytes, proc, nb);
     }
 }
@@ -3675,7 +3687,7 @@ STATIC void nb_accs_packed(
         header->rank = proc;
         header->length = packed_index;
         nb_send_header(header, sizeof(header_t), proc, nb);
-        nb_send_buffer(scale, scale_size, proc, nb);
+        nb_send_copy(scale, scale_size, proc, nb);
         nb_send_header(stride, sizeof(stride_t), proc, nb);
         nb_send_header(packed_buffer, packed_index, proc, nb);
     }
@@ -4018,7 +4030,7 @@ STATIC void nb_accv_packed(
         header->rank = proc;
         header->length = iov_size;
         nb_send_header(header, sizeof(header_t), proc, nb);
-        nb_send_buffer(scale, scale_size, proc, nb);
+        nb_send_copy(scale, scale_size, proc, nb);
         nb_send_header(iov_buf, iov_size, proc, nb);
         nb_send_header(packed_buffer, packed_size, proc, nb);
     }
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index b5a18b8..cbe399f 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -211,6 +211,7 @@ STATIC void _free_handler(header_t *header, char *payload, int proc);
 STATIC void nb_send_common(void *buf, int count, int dest, nb_t *nb, int need_free);
 STATIC void nb_send_header(void *buf, int count, int dest, nb_t *nb);
 STATIC void nb_send_buffer(void *buf, int count, int dest, nb_t *nb);
+STATIC void nb_send_copy(const void *buf, int count, int dest, nb_t *nb);
 STATIC void nb_recv_packed(void *buf, int count, int source, nb_t *nb, stride_t *stride);
 STATIC void nb_recv_iov(void *buf, int count, int source, nb_t *nb, comex_giov_t *iov);
 STATIC void nb_recv(void *buf, int count, int source, nb_t *nb);
@@ -3995,6 +3996,17 @@ STATIC void nb_send_buffer(void *buf, int count, int dest, nb_t *nb)
 }
 
 
+/* send a small argument whose storage belongs to the caller */
+STATIC void nb_send_copy(const void *buf, int count, int dest, nb_t *nb)
+{
+    void *copy = malloc(count);
+
+    COMEX_ASSERT(copy);
+    (void)memcpy(copy, buf, count);
+    nb_send_header(copy, count, dest, nb);
+}
+
+
 STATIC void nb_recv_packed(void *buf, int count, int source, nb_t *nb, stride_t *stride)
 {
     int retval = 0;
@@ -5021,7 +5033,7 @@ STATIC void nb_accs_packed(
         header->rank = proc;
         header->length = packed_index;
         nb_send_header(header, sizeof(header_t), master_rank, nb);
-        nb_send_buffer(scale, scale_size, master_rank, nb);
+        nb_send_copy(scale, scale_size, master_rank, nb);
         nb_send_header(stride, sizeof(stride_t), master_rank, nb);
         nb_send_header(packed_buffer, packed_index, master_rank, nb);
     }
@@ -5367,7 +5379,7 @@ STATIC void nb_accv_packed(
         header->rank = proc;
         header->length = iov_size;
         nb_send_header(header, sizeof(header_t), master_rank, nb);
-        nb_send_buffer(scale, scale_size, master_rank, nb);
+        nb_send_copy(scale, scale_size, master_rank, nb);
         nb_send_header(iov_buf, iov_size, master_rank, nb);
         nb_send_header(packed_buffer, packed_size, master_rank, nb);
     }
-- 
2.43.0


From f98b8ab567ecc72ac6c870edd885a25d02061736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 06/48] fix: strided transfers of 3-d and larger patches used
 the wrong buffer offset for every owner but the first

The offset of an owner's part in the local buffer multiplied each dimension by
its own leading dimension only instead of the product of all lower ones.
---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..5ab3df5 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4184,8 +4184,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From 254563ef1da520f5eed0c626677c18f665cfb6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 07/48] fix: mpi3 and mpi-pr strided datatypes were wrong when
 a stride is not a multiple of the next lower one

Strided patches (element skips) gave an MPI subarray of truncated sizes, so
data went to the wrong places or MPI rejected the type. Nest hvectors instead.
---
 comex/src-mpi-pr/comex.c | 72 +++++++---------------------------------
 comex/src-mpi3/comex.c   | 57 +++++++------------------------
 2 files changed, 24 insertions(+), 105 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..9c433b1 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,67 +7492,19 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
-    int i = 0;
-    int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
-
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-
-    /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
+    int i, ierr;
+    MPI_Datatype inner;
+
+    /* The strides are byte distances and need not be multiples of one another
+     * (a patch can skip elements), so nest one vector per stride level. */
+    ierr = MPI_Type_contiguous(count[0], base_type, type);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
     for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+        inner = *type;
+        ierr = MPI_Type_create_hvector(count[i+1], 1, stride_array[i], inner, type);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        ierr = MPI_Type_free(&inner);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
     }
 }
 STATIC void check_devshm(int fd, size_t size){
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index b0f43b6..03ab1ef 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -680,52 +680,19 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
+   int i, ierr;
+   MPI_Datatype inner;
+
+   /* The strides are byte distances and need not be multiples of one another
+    * (a patch can skip elements), so nest one vector per stride level. */
+   ierr = MPI_Type_contiguous(count[0], base_type, type);
+   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
    for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+      inner = *type;
+      ierr = MPI_Type_create_hvector(count[i+1], 1, stride_array[i], inner, type);
+      translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+      ierr = MPI_Type_free(&inner);
+      translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
    }
 }
 
-- 
2.43.0


From ab78323ae37e2f18fea5287c295d4ba8f491ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 08/48] fix: block iterators and tiled block addresses were
 wrong for block-cyclic, grid and tiled arrays

The block-cyclic iterator started at the calling process's first block with
an undefined offset, both global and local iterators ran off the block list on
processors that hold no blocks, and the address of a tiled block was only
right for processor grids two wide.
---
 global/src/iterator.c | 96 ++++++++++++++++++++++++++++---------------
 global/src/onesided.c | 35 ++++------------
 2 files changed, 72 insertions(+), 59 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..93b60a1 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -222,7 +222,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
@@ -306,6 +307,46 @@ void gai_iterator_reset(_iterator_hdl *hdl)
   }
 }
 
+/**
+ * Move to the first block of the next processor of a processor grid
+ * @param hdl handle for iterator
+ * @param handle index of global array
+ */
+static void gai_iterator_next_proc(_iterator_hdl *hdl, Integer handle)
+{
+  hdl->iproc++;
+  hdl->offset = 0;
+  if (GA[handle].distr_type == SCALAPACK) {
+    gam_find_proc_indices(handle, hdl->iproc, hdl->proc_index);
+    gam_find_proc_indices(handle, hdl->iproc, hdl->index);
+  } else {
+    gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
+    gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
+  }
+}
+
+/**
+ * Skip processors of a processor grid that hold no blocks. This happens if
+ * there are fewer blocks than processors along some dimension
+ * @param hdl handle for iterator
+ * @param handle index of global array
+ * @param nproc number of processors in grid
+ * @return returns false if there are no processors left, true otherwise
+ */
+static int gai_iterator_skip_empty(_iterator_hdl *hdl, Integer handle,
+    int nproc)
+{
+  int j, ndim = GA[handle].ndim;
+  while (hdl->iproc < nproc) {
+    for (j=0; j<ndim; j++) {
+      if (hdl->proc_index[j] >= GA[handle].num_blocks[j]) break;
+    }
+    if (j == ndim) return 1;
+    gai_iterator_next_proc(hdl, handle);
+  }
+  return 0;
+}
+
 /**
  * Get the next sub-block from the larger block defined when the iterator was
  * initialized
@@ -466,7 +507,8 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
       /* Simple block-cyclic distribution */
       if (hdl->iproc >= nproc) return 0;
-      /*if (hdl->iproc == nproc-1 && hdl->iblock >= blk_tot) return 0;*/
+      /* processors with an index beyond the number of blocks hold no data */
+      if (hdl->iblock >= blk_tot) return 0;
       if (hdl->iblock == hdl->iproc) hdl->offset = 0;
       chk = 0;
       /* loop over blocks until a block with data is found */
@@ -502,12 +544,12 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
           hdl->offset += jtot;
           /* increment to next block */
-          hdl->iblock += pnga_nnodes();
+          hdl->iblock += nproc;
           if (hdl->iblock >= blk_tot) {
             hdl->offset = 0;
             hdl->iproc++;
             hdl->iblock = hdl->iproc;
-            if (hdl->iproc >= nproc) return 0;
+            if (hdl->iproc >= nproc || hdl->iblock >= blk_tot) return 0;
           }
         }
       }
@@ -550,7 +592,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         hdl->offset += jtot;
 
-        hdl->iblock += pnga_nnodes();
+        hdl->iblock += nproc;
         if (hdl->iblock >= blk_tot) {
           hdl->iproc++;
           hdl->iblock = hdl->iproc;
@@ -565,11 +607,12 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       Integer proc_index[MAXDIM], index[MAXDIM];
       Integer itmp;
       Integer blk_jinc;
-      /* Return false at the end of the iteration */
-      if (hdl->iproc >= nproc) return 0;
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* Skip processors that hold no blocks and return false at the end
+         * of the iteration */
+        if (!gai_iterator_skip_empty(hdl, handle, nproc)) return 0;
         /* get bounds for current block */
         if (GA[handle].distr_type == SCALAPACK ||
             GA[handle].distr_type == TILED) {
@@ -629,17 +672,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           if (hdl->index[ndim-1] >= GA[handle].num_blocks[ndim-1]) {
             /* last iteration has been completed on current processor. Go
              * to next processor */
-            hdl->iproc++;
-            if (hdl->iproc >= nproc) return 0;
-            hdl->offset = 0;
-            if (GA[handle].distr_type == TILED ||
-                GA[handle].distr_type == TILED_IRREG) {
-              gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
-              gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
-            } else if (GA[handle].distr_type == SCALAPACK) {
-              gam_find_proc_indices(handle, hdl->iproc, hdl->proc_index);
-              gam_find_proc_indices(handle, hdl->iproc, hdl->index);
-            }
+            gai_iterator_next_proc(hdl, handle);
           }
         }
       }
@@ -715,16 +748,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
         }
         if (hdl->index[ndim-1] >= GA[handle].num_blocks[ndim-1]) {
-          hdl->iproc++;
-          hdl->offset = 0;
-          if (GA[handle].distr_type == TILED ||
-              GA[handle].distr_type == TILED_IRREG) {
-            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
-            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
-          } else if (GA[handle].distr_type == SCALAPACK) {
-            gam_find_proc_indices(handle, hdl->iproc, hdl->proc_index);
-            gam_find_proc_indices(handle, hdl->iproc, hdl->index);
-          }
+          gai_iterator_next_proc(hdl, handle);
         }
       }
     }
@@ -748,6 +772,7 @@ int gai_iterator_last(_iterator_hdl *hdl)
   int grp = GA[handle].p_handle;
   int nproc = pnga_pgroup_nnodes(grp);
   ndim = GA[handle].ndim;
+  if (n_rstrctd > 0) nproc = n_rstrctd;
   if (GA[handle].distr_type == REGULAR) {
     idx = hdl->count;
     /* no blocks left after this iteration */
@@ -755,11 +780,12 @@ int gai_iterator_last(_iterator_hdl *hdl)
   } else {
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
       /* Simple block-cyclic distribution */
-      if (hdl->iproc >= nproc) return 1;
+      if (hdl->iproc >= nproc || hdl->iblock >= GA[handle].block_total)
+        return 1;
     } else if (GA[handle].distr_type == SCALAPACK ||
         GA[handle].distr_type == TILED ||
         GA[handle].distr_type == TILED_IRREG) {
-      if (hdl->iproc >= nproc) return 1;
+      if (!gai_iterator_skip_empty(hdl, handle, nproc)) return 1;
     }
   }
   return 0;
@@ -887,7 +913,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == SCALAPACK ||
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or this processor has no blocks at all */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -905,7 +934,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == TILED_IRREG) {
     /* Irregular tiled data distribution */
     Integer offset = 0;
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or this processor has no blocks at all */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
diff --git a/global/src/onesided.c b/global/src/onesided.c
index 5ab3df5..acbc425 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1672,35 +1672,16 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
   if (GA[handle].distr_type == TILED) {
     for (i=0; i<ndim; i++) {
       int ldim;
-      /*
-      block_idx[i] = 0;
-      block_count[i] = 0;
-      lld[i] = 0;
-      lo = 0;
-      hi = -1;
-      */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
-        if (dims[i]%block_dims[i] != 0) {
-          lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
-        } else {
-          lld[i] = ldim*block_dims[i];
-        }
-      } else {
-        lld[i] = ldim *block_dims[i];
+      /* number of blocks held by the processor that come before the requested
+         block and number of blocks held by it altogether */
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      lld[i] = ldim*block_dims[i];
+      /* the last block of the array may be incomplete */
+      if ((num_blocks[i]-1-proc_index[i])%proc_grid[i] == 0) {
+        lld[i] -= num_blocks[i]*block_dims[i] - dims[i];
       }
       block_count[i] = ldim;
-      /*
-      for (j=proc_index[i]; j<num_blocks[i]; j += proc_grid[i]) {
-        lo = j*block_dims[i] + 1;
-        hi = (j+1)*block_dims[i];
-        if (hi > dims[i]) hi = dims[i]; 
-        lld[i] += (hi - lo + 1);
-        if (j<index[i]) block_idx[i]++;
-        block_count[i]++;
-      }
-      */
     }
 
     /* Evaluate offset for requested block. The algorithm used goes like this:
-- 
2.43.0


From 7f22b7be96b6eaf0bd4ac89a94cf727188610c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 09/48] fix: testing a nonblocking handle could lose or free
 unfinished messages (mpi-pr) or never complete (mpi-mt, mpi-pt)

---
 comex/src-mpi-mt/comex.c | 18 +++++++++++++++
 comex/src-mpi-pr/comex.c | 50 +++++++---------------------------------
 comex/src-mpi-pt/comex.c | 18 +++++++++++++++
 3 files changed, 44 insertions(+), 42 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index e2d509d..17049bf 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -955,6 +955,24 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the messages that have completed */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) break;
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) break;
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 9c433b1..b0f93ac 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -5769,8 +5769,7 @@ STATIC void nb_wait_for_send1(nb_t *nb)
 
 
 /* returns true if operation has completed */
-STATIC int nb_test_for_send1(nb_t *nb, message_t **save_send_head,
-    message_t **prev)
+STATIC int nb_test_for_send1(nb_t *nb)
 {
 #if DEBUG
     fprintf(stderr, "[%d] nb_test_for_send1(nb=%p)\n", g_state.rank, nb);
@@ -5799,9 +5798,7 @@ STATIC int nb_test_for_send1(nb_t *nb, message_t **save_send_head,
           }
 
           message_to_free = nb->send_head;
-          if (*prev) (*prev)->next=nb->send_head->next;
           nb->send_head = nb->send_head->next;
-          *save_send_head = NULL;
           free(message_to_free);
 
           COMEX_ASSERT(nb->send_size > 0);
@@ -5812,10 +5809,6 @@ STATIC int nb_test_for_send1(nb_t *nb, message_t **save_send_head,
           if (NULL == nb->send_head) {
             nb->send_tail = NULL;
           }
-        } else {
-          *prev = nb->send_head;
-          *save_send_head = nb->send_head;
-          nb->send_head = nb->send_head->next;
         }
         return flag;
     }
@@ -5892,8 +5885,7 @@ STATIC void nb_wait_for_recv1(nb_t *nb)
 
 
 /* returns true if operation has completed */
-STATIC int nb_test_for_recv1(nb_t *nb, message_t **save_recv_head,
-    message_t **prev)
+STATIC int nb_test_for_recv1(nb_t *nb)
 {
 #if DEBUG
     fprintf(stderr, "[%d] nb_wait_for_recv1(nb=%p)\n", g_state.rank, nb);
@@ -5949,9 +5941,7 @@ STATIC int nb_test_for_recv1(nb_t *nb, message_t **save_recv_head,
           }
 
           message_to_free = nb->recv_head;
-          if (*prev) (*prev)->next=nb->recv_head->next;
           nb->recv_head = nb->recv_head->next;
-          *save_recv_head = NULL;
           free(message_to_free);
 
           COMEX_ASSERT(nb->recv_size > 0);
@@ -5962,10 +5952,6 @@ STATIC int nb_test_for_recv1(nb_t *nb, message_t **save_recv_head,
           if (NULL == nb->recv_head) {
             nb->recv_tail = NULL;
           }
-        } else {
-          *prev = nb->recv_head;
-          *save_recv_head = nb->recv_head;
-           nb->recv_head = nb->recv_head->next;
         }
         return flag;
     }
@@ -6000,36 +5986,16 @@ STATIC int nb_test_for_all(nb_t *nb)
     fprintf(stderr, "[%d] nb_test_for_all(nb=%p)\n", g_state.rank, nb);
 #endif
     int ret = 0;
-    message_t *save_send_head = NULL;
-    message_t *save_recv_head = NULL;
-    message_t *tmp_send_head;
-    message_t *tmp_recv_head;
-    message_t *send_prev = NULL;
-    message_t *recv_prev = NULL;
 
     COMEX_ASSERT(NULL != nb);
 
-    /* check for outstanding requests */
-    while (NULL != nb->send_head || NULL != nb->recv_head) {
-      if (NULL != nb->send_head) {
-        if (!nb_test_for_send1(nb, &tmp_send_head, &send_prev)) {
-          ret = 1; 
-        }
-        if ((NULL == save_send_head) && (ret == 1)) {
-          save_send_head = tmp_send_head;
-        }
-      }
-      if (NULL != nb->recv_head) {
-        if (!nb_test_for_recv1(nb, &tmp_recv_head, &recv_prev)) {
-          ret = 1;
-        }
-        if ((NULL == save_recv_head) && (ret == 1)) {
-          save_recv_head = tmp_recv_head;
-        }
-      }
+    /* retire completed requests from the head of each list only: a message
+     * may own the buffer of the messages queued before it */
+    while (NULL != nb->send_head && nb_test_for_send1(nb)) {
+    }
+    while (NULL != nb->recv_head && nb_test_for_recv1(nb)) {
     }
-    nb->send_head = save_send_head;
-    nb->recv_head = save_recv_head;
+    ret = (NULL != nb->send_head || NULL != nb->recv_head);
     if (ret == 0) nb->in_use = 0;
     return ret;
 }
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index cbe399f..4a675c2 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1365,6 +1365,24 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the messages that have completed */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) break;
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) break;
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
-- 
2.43.0


From e0fa91efaa0fc99a9f02a185ffe089f0f3de62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 10/48] fix: element-wise, norm, diagonal, median, step and
 selection operations on complex, ghost, blocked or unevenly owned arrays

- element-wise product with complex elements and C = A or C = B used the
  already overwritten real part; scaling rows and columns multiplied real
  and imaginary parts separately
- zero_diagonal cleared from the start of the block, not of its diagonal
- the norms forgot all blocks of a process but the last, and
  norm_infinity took the first element with its sign
- median treated matching patches as mismatching and the reverse, and for
  block-cyclic arrays also wrote outside the patch
- element-wise operations, add and dot on patches mixed up arrays that
  match but have different ghost cells; symmetrize read ghost cells
- step_max on a patch also looked at uninitialised elements outside it
- select_elem let processes without data compete with garbage, stopped on
  blocks that are not contiguous, reported stale subscripts, and did not
  work for long long
---
 comex/src-armci/message.c  | 64 ++++++++++++++++++++------------------
 global/src/elem_alg.c      | 35 +++++++++++++++++----
 global/src/ga_symmetr.c    | 21 ++++++++++---
 global/src/global.npatch.c | 11 +++++--
 global/src/matrix.c        | 63 +++++++++++++++++++------------------
 global/src/select.c        | 60 +++++++++++++++++++----------------
 6 files changed, 152 insertions(+), 102 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..e405730 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
+#include <math.h>
 
 #include <mpi.h>
 
@@ -23,9 +25,6 @@ static ARMCI_Group ARMCI_GROUP_SELF = -2;
 
 extern int ARMCI_Default_Proc_Group;
 
-/* for armci_msg_sel_scope */
-static MPI_Datatype MPI_LONGLONG_INT;
-
 /* Information on nodes */
 extern int _number_of_procs_per_node;
 extern int _my_node_id;
@@ -254,7 +253,6 @@ void armci_msg_bcast(void *buf, int len, int root)
  */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute)
 {
-    static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
 
@@ -266,27 +264,6 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       }
     }
 
-    /* first time this function is called we establish the
-     * long long w/ int type that MPI doesn't provide by default */
-    if (!initialized) {
-        int block[2];
-        MPI_Aint disp[2];
-        MPI_Datatype type[2];
-
-        initialized = 1;
-        type[0] = MPI_LONG_LONG;
-        type[1] = MPI_INT;
-        disp[0] = 0;
-        disp[1] = sizeof(long long);
-        block[0] = 1;
-        block[1] = 1;
-#if defined(MPI_VERSION) && (MPI_VERSION >= 2)
-        MPI_Type_create_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#else
-        MPI_Type_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#endif
-    }
-
     if (strncmp(op, "min", 3) == 0) {
         mpi_op = MPI_MINLOC;
     }
@@ -297,7 +274,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, MINVAL, MAXVAL)    \
     if (type == ARMCI_TYPE) {                                   \
         struct {                                                \
             C_TYPE val;                                         \
@@ -305,18 +282,43 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
         } in, out;                                              \
         in.val = *((C_TYPE*)x);                                 \
         in.rank = get_default_rank();                           \
+        if (!contribute) {                                      \
+            /* lose against every contribution, also if equal */\
+            in.val = (MPI_MINLOC == mpi_op) ? (MAXVAL) : (MINVAL); \
+            in.rank = INT_MAX;                                  \
+        }                                                       \
         if (SCOPE_NODE != scope) {                              \
             comex_barrier(ARMCI_Default_Proc_Group);            \
         }                                                       \
         MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
+        if (INT_MAX != out.rank)                                \
         armci_msg_bcast(x, n, out.rank);                        \
     }                                                           \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_2INT,       INT_MIN, INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT,   LONG_MIN, LONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT,  -HUGE_VALF, HUGE_VALF)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT, -HUGE_VAL, HUGE_VAL)
+    if (type == ARMCI_LONG_LONG) {
+        /* MPI has no pair type for long long: find the value, then the
+         * lowest rank that has it */
+        int min = (MPI_MINLOC == mpi_op);
+        long long val = contribute ? *((long long*)x)
+                                   : (min ? LLONG_MAX : LLONG_MIN);
+        long long best;
+        int rank, root;
+        if (SCOPE_NODE != scope) {
+            comex_barrier(ARMCI_Default_Proc_Group);
+        }
+        MPI_Allreduce(&val, &best, 1, MPI_LONG_LONG, min ? MPI_MIN : MPI_MAX,
+                comm);
+        rank = (contribute && val == best) ? get_default_rank() : INT_MAX;
+        MPI_Allreduce(&rank, &root, 1, MPI_INT, MPI_MIN, comm);
+        if (INT_MAX != root) {
+            armci_msg_bcast(x, n, root);
+        }
+    }
+    else
     {
         comex_error("unsupported SELECT operation", 1);
     }
diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..cf2fd3b 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,14 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                /* C may be the same array as A or B */                     \
+                const T* const aptr = (const T*)pA;                         \
+                const T* const bptr = (const T*)pB;                         \
+                T* const cptr = (T*)pC;                                     \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    const T a = aptr[i];                                    \
+                    const T b = bptr[i];                                    \
+                    assign_mul_##AT(cptr[i],a,b);                           \
                 }                                                           \
                 break;                                                      \
             }
@@ -1885,7 +1888,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+        !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_c)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -1912,7 +1916,8 @@ int op; /* operation to be perform between g_a and g_b */
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible = 1;
+        pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+        !pnga_has_ghosts(g_b) && !pnga_has_ghosts(g_c)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -3617,6 +3622,24 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
     if(g_c==0)
       pnga_error("ga_step_max_patch_:fail to duplicate array c", g_a);
 
+    /*elements outside the patch must not be selected below*/
+    switch (atype)
+    {
+      case C_INT:
+        iresult = -GA_INFINITY_I;
+        break;
+      case C_DBL:
+        dresult = -GA_INFINITY_D;
+        break;
+      case C_FLOAT:
+        fresult = -GA_INFINITY_F;
+        break;
+      default:
+        lresult = -GA_INFINITY_L;
+        break;
+    }
+    pnga_fill(g_c, sresult);
+
     /*
        pnga_elem_divide_patch(g_a, alo, ahi, g_b, blo, bhi, g_c, alo, ahi);
      */
diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..75b2d12 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -53,7 +53,7 @@ void pnga_symmetrize(Integer g_a) {
   Integer alo[GA_MAX_DIM], ahi[GA_MAX_DIM], lda[GA_MAX_DIM], nelem=1;
   Integer blo[GA_MAX_DIM], bhi[GA_MAX_DIM], ldb[GA_MAX_DIM];
   Integer ndim, dims[GA_MAX_DIM], type;
-  Logical have_data;
+  Logical have_data, has_ghosts;
   Integer g_b; /* temporary global array (b = A') */
   Integer num_blocks_a;
   void *a_ptr=NULL, *b_ptr=NULL;
@@ -68,6 +68,7 @@ void pnga_symmetrize(Integer g_a) {
   num_blocks_a = pnga_total_blocks(g_a);
 
   pnga_inquire(g_a, &type, &ndim, dims);
+  has_ghosts = pnga_has_ghosts(g_a);
 
   if (type != C_DBL)
     pnga_error("ga_symmetrize: only implemented for double precision",0);
@@ -85,9 +86,16 @@ void pnga_symmetrize(Integer g_a) {
     for(i=1; i<ndim; i++) have_data = have_data && ahi[i]>0;
 
     if(have_data) {
-      pnga_access_ptr(g_a, alo, ahi, &a_ptr, lda); 
-
       for(i=0; i<ndim; i++) nelem *= ahi[i]-alo[i] +1;
+      if (has_ghosts) {
+        /* gai_add needs contiguous data, so work on a copy */
+        a_ptr = (void *) pnga_malloc(nelem, MT_F_DBL, "v");
+        for (i=0; i < ndim-1; i++)
+          lda[i] = ahi[i] - alo[i] + 1;
+        pnga_get(g_a, alo, ahi, a_ptr, lda);
+      } else {
+        pnga_access_ptr(g_a, alo, ahi, &a_ptr, lda);
+      }
       b_ptr = (void *) pnga_malloc(nelem, MT_F_DBL, "v");
 
       for(i=0; i<ndim-2; i++) {bhi[i]=ahi[i]; blo[i]=alo[i]; }
@@ -106,8 +114,13 @@ void pnga_symmetrize(Integer g_a) {
 
     if(have_data) {
       gai_add(alo, ahi, a_ptr, b_ptr, alpha, type, nelem, ndim);
-      pnga_release_update(g_a, alo, ahi);
       pnga_free(b_ptr);
+      if (has_ghosts) {
+        pnga_put(g_a, alo, ahi, a_ptr, lda);
+        pnga_free(a_ptr);
+      } else {
+        pnga_release_update(g_a, alo, ahi);
+      }
     }
   } else {
     /* For block-cyclic data, probably most efficient solution is to
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 0ac99f0..56abf7c 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -1209,8 +1209,11 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
     pnga_distribution(g_A, me, loA, hiA);
     pnga_distribution(g_B, me, loB, hiB);
 
+    /* the local portions are traversed with the same leading dimensions,
+     * so arrays with ghost cells never match */
     if(pnga_comp_patch(andim, loA, hiA, bndim, loB, hiB) &&
-        pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi)) compatible = 1;
+        pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi) &&
+        !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_b)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -2703,12 +2706,14 @@ void *alpha, *beta;
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
-       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible_a = 1;
+       pnga_comp_patch(andim, alo, ahi, cndim, clo, chi) &&
+       !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_c)) compatible_a = 1;
     else compatible_a = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_a, 1, "&&");
     if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
-       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible_b = 1;
+       pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi) &&
+       !pnga_has_ghosts(g_b) && !pnga_has_ghosts(g_c)) compatible_b = 1;
     else compatible_b = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible_b, 1, "&&");
diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..1bdb52a 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -404,7 +404,9 @@ void pnga_median_patch(
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +424,9 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts(g_b) && !pnga_has_ghosts(g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +444,9 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts(g_c) && !pnga_has_ghosts(g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -534,6 +540,9 @@ void pnga_median_patch(
         /*hid[j] = hiM[j];*/
       }
 
+      /* skip blocks outside the patch */
+      if (!pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) continue;
+
       /* evaluate offsets for system */
       offset = 0;
       last = mndim - 1;
@@ -727,6 +736,8 @@ void pnga_median(Integer g_a, Integer g_b, Integer g_c, Integer g_m){
 
 }
 
+/* accumulate the contribution of one block into buf, which holds the result
+ * of the preceding blocks */
 static void sgai_norm_infinity_block(Integer g_a, void *ptr,
                              Integer *lo, Integer *hi, Integer ld,
                              Integer type,
@@ -800,7 +811,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -808,17 +818,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -830,10 +835,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -845,14 +846,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
@@ -1117,22 +1116,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1144,8 +1139,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1157,14 +1150,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
@@ -2319,6 +2310,8 @@ void pnga_zero_diagonal(Integer g_a)
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        /* ptr is the start of the block, not of its diagonal */
+        offset = (lo[0] - loA[0]) + (lo[1] - loA[1])*ld;
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
@@ -2491,16 +2484,20 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex x = dca[j*ld+i];
+              DoubleComplex v = ((DoubleComplex *) buf)[i];
+              dca[j*ld+i].real = x.real*v.real - x.imag*v.imag;
+              dca[j*ld+i].imag = x.real*v.imag + x.imag*v.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex x = fca[j*ld+i];
+              SingleComplex v = ((SingleComplex *) buf)[i];
+              fca[j*ld+i].real = x.real*v.real - x.imag*v.imag;
+              fca[j*ld+i].imag = x.real*v.imag + x.imag*v.real;
             }
           break;
         default:
@@ -2697,8 +2694,10 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex x = dca[j*ld+i];
+              DoubleComplex v = ((DoubleComplex *) buf)[j];
+              dca[j*ld+i].real = x.real*v.real - x.imag*v.imag;
+              dca[j*ld+i].imag = x.real*v.imag + x.imag*v.real;
             }
           break;
         case C_SCPL:
@@ -2706,8 +2705,10 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex x = fca[j*ld+i];
+              SingleComplex v = ((SingleComplex *) buf)[j];
+              fca[j*ld+i].real = x.real*v.real - x.imag*v.imag;
+              fca[j*ld+i].imag = x.real*v.imag + x.imag*v.real;
             }
           break;
         default:
diff --git a/global/src/select.c b/global/src/select.c
index e287928..6381938 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -263,7 +263,6 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   void *ptr;
   char *cptr;
   _iterator_hdl hdl_a;
-  Integer first_pass;
 
   local_sync_begin = _ga_sync_begin; 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -281,40 +280,47 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   num_blocks = pnga_total_blocks(g_a);
 
 
-  first_pass = 1;
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
-    Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
-    participate =1;
-    ptr = (void*)cptr;
-
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
-
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+    Integer update, col, ncols, rem, offset, stride;
+    Integer idx[MAXDIM];
+
+    /* the columns of a block are contiguous, but need not follow one another */
+    ncols = 1;
+    for (i = 1; i < ndim; i++) ncols *= hi[i]-lo[i]+1;
+    for (col = 0; col < ncols; col++) {
+      rem = col;
+      offset = 0;
+      stride = 1;
+      idx[0] = 0;
+      for (i = 1; i < ndim; i++) {
+        Integer extent = hi[i]-lo[i]+1;
+        idx[i] = rem%extent;
+        rem /= extent;
+        stride *= ld[i-1];
+        offset += idx[i]*stride;
       }
-    } else {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &new_info, &ind);
+      ptr = (void*)(cptr + offset*GAsizeofM(type));
+      elems = hi[0]-lo[0]+1;
+
+      /* select element of this column */
+      ind = 0;
+      snga_select_elem(type, op, ptr, elems,
+          (participate ? &new_info : &info), &ind);
+
+      /* compare with preceding columns */
+      update = 1;
+      if (participate) {
+        snga_compare_elem(type, op, &new_info, &info, &update);
+      }
+      participate = 1;
 
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
-        }
+        idx[0] = ind;
+        for (i = 0; i < ndim; i++) info.subscr[i] = idx[i] + lo[i];
       }
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From 2f570baa480525cc04f1f582bbe6898df1551d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 11/48] fix: mpi-pr with several progress ranks per node did
 not register the memory of subgroup members

---
 comex/src-mpi-pr/comex.c | 128 +++++++++------------------------------
 1 file changed, 27 insertions(+), 101 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index b0f93ac..e43bbed 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -358,6 +358,7 @@ STATIC int _get_world_rank(comex_igroup_t *igroup, int rank);
 STATIC int* _get_world_ranks(comex_igroup_t *igroup);
 STATIC int _smallest_world_rank_with_same_hostid(comex_igroup_t *group);
 STATIC int _largest_world_rank_with_same_hostid(comex_igroup_t *igroup);
+STATIC int _is_notifier(comex_igroup_t *igroup);
 STATIC void _malloc_semaphore(void);
 STATIC void _free_semaphore(void);
 #if ENABLE_SYSV
@@ -782,28 +783,8 @@ int comex_finalize()
     comex_barrier(COMEX_GROUP_WORLD);
 
     /* send quit message to thread */
-    int smallest_rank_with_same_hostid, largest_rank_with_same_hostid; 
-    int num_progress_ranks_per_node, is_node_ranks_packed;
-    int my_rank_to_free;
-    int is_notifier = 0; 
-
-    num_progress_ranks_per_node = get_num_progress_ranks_per_node();
-    is_node_ranks_packed = get_progress_rank_distribution_on_node();
-    smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(group_list);
-    largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(group_list);
-    my_rank_to_free = get_my_rank_to_free(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
-#if DEBUG
-    fprintf(stderr, "[%d] comex_finalize() sr_in_group %d\n", g_state.rank, 
-        my_rank_to_free);
-    //     smallest_rank_with_same_hostid + g_state.node_size*
-    //  ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size));
-#endif
-    // is_notifier = g_state.rank == smallest_rank_with_same_hostid + g_state.node_size*
-    //   ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size);
-    // if (_smallest_world_rank_with_same_hostid(group_list) == g_state.rank) 
-    if((is_notifier = my_rank_to_free) == g_state.rank)
+    /* one worker per progress rank */
+    if (_is_notifier(group_list))
     {
         int my_master = -1;
         header_t *header = NULL;
@@ -2398,28 +2379,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
     fprintf(stderr, "[%d] comex_malloc my_master=%d\n", g_state.rank, my_master);
 #endif
 
-    int smallest_rank_with_same_hostid, largest_rank_with_same_hostid; 
-    int num_progress_ranks_per_node, is_node_ranks_packed;
-    num_progress_ranks_per_node = get_num_progress_ranks_per_node();
-    is_node_ranks_packed = get_progress_rank_distribution_on_node();
-    smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
-    largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == get_my_master_rank_with_same_hostid(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
-#if 0
-#if MASTER_IS_SMALLEST_SMP_RANK
-    // is_notifier = _smallest_world_rank_with_same_hostid(igroup) == g_state.rank;
-    int smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == smallest_rank_with_same_hostid + g_state.node_size*
-      ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size);
-#else
-    // is_notifier = _largest_world_rank_with_same_hostid(igroup) == g_state.rank;
-    int largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == (largest_rank_with_same_hostid - g_state.node_size *
-       ((largest_rank_with_same_hostid - g_state.rank)/g_state.node_size));
-#endif
-#endif
+    is_notifier = _is_notifier(igroup);
     if (is_notifier) {
         reg_entries_local = malloc(sizeof(reg_entry_t)*g_state.node_size);
     }
@@ -2429,8 +2389,6 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
     reg_entries = malloc(size_entries);
     MAYBE_MEMSET(reg_entries, 0, sizeof(reg_entry_t)*igroup->size);
 #if DEBUG
-    fprintf(stderr, "[%d] comex_malloc lr_same_hostid=%d\n", 
-      g_state.rank, largest_rank_with_same_hostid);
     fprintf(stderr, "[%d] comex_malloc igroup size=%d\n", g_state.rank, igroup->size);
     fprintf(stderr, "[%d] comex_malloc node_size=%d\n", g_state.rank, g_state.node_size);
     fprintf(stderr, "[%d] comex_malloc is_notifier=%d\n", g_state.rank, is_notifier);
@@ -2491,24 +2449,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
                 reg_entries_local[reg_entries_local_count++] = reg_entries[i];
             }
         }
-        // else if (g_state.hostid[reg_entries[i].rank]
-        //         == g_state.hostid[my_world_rank]) 
-
-        else if (g_state.master[reg_entries[i].rank] == 
-           g_state.master[get_my_master_rank_with_same_hostid(g_state.rank,
-           g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-           num_progress_ranks_per_node, is_node_ranks_packed)] )
-#if 0
-#if MASTER_IS_SMALLEST_SMP_RANK
-        else if (g_state.master[reg_entries[i].rank] ==
-                g_state.master[(smallest_rank_with_same_hostid + g_state.node_size *
-       ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size))])
-#else
-        else if (g_state.master[reg_entries[i].rank] ==
-                g_state.master[(largest_rank_with_same_hostid - g_state.node_size *
-       ((largest_rank_with_same_hostid - g_state.rank)/g_state.node_size))])
-#endif
-#endif
+        else if (g_state.master[reg_entries[i].rank] == my_master)
             {
             /* same SMP node, need to mmap */
             /* open remote shared memory object */
@@ -3006,26 +2947,7 @@ int comex_free(void *ptr, comex_group_t group)
     fprintf(stderr, "[%d] comex_free my_master=%d\n", g_state.rank, my_master);
 #endif
 
-    int num_progress_ranks_per_node = get_num_progress_ranks_per_node();
-    int is_node_ranks_packed = get_progress_rank_distribution_on_node();
-    int smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
-    int largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == get_my_master_rank_with_same_hostid(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
-#if 0
-#if MASTER_IS_SMALLEST_SMP_RANK
-    // is_notifier = _smallest_world_rank_with_same_hostid(igroup) == g_state.rank;
-    int smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == smallest_rank_with_same_hostid + g_state.node_size*
-      ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size);
-#else
-    // is_notifier = _largest_world_rank_with_same_hostid(igroup) == g_state.rank;
-    int largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == (largest_rank_with_same_hostid - g_state.node_size *
-       ((largest_rank_with_same_hostid - g_state.rank)/g_state.node_size));
-#endif
-#endif
+    is_notifier = _is_notifier(igroup);
     if (is_notifier) {
         rank_ptrs = malloc(sizeof(rank_ptr_t)*g_state.node_size);
     }
@@ -3067,23 +2989,7 @@ int comex_free(void *ptr, comex_group_t group)
             fprintf(stderr, "[%d] comex_free found NULL at %d\n", g_state.rank, i);
 #endif
         }
-        // else if (g_state.hostid[world_ranks[i]]
-        //         == g_state.hostid[g_state.rank]) 
-        else if (g_state.master[world_ranks[i]] == 
-           g_state.master[get_my_master_rank_with_same_hostid(g_state.rank,
-           g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-           num_progress_ranks_per_node, is_node_ranks_packed)] )
-#if 0
-#if MASTER_IS_SMALLEST_SMP_RANK
-        else if (g_state.master[world_ranks[i]] ==
-                g_state.master[(smallest_rank_with_same_hostid + g_state.node_size *
-       ((g_state.rank - smallest_rank_with_same_hostid)/g_state.node_size))]) 
-#else
-        else if (g_state.master[world_ranks[i]] ==
-                g_state.master[(largest_rank_with_same_hostid - g_state.node_size *
-       ((largest_rank_with_same_hostid - g_state.rank)/g_state.node_size))]) 
-#endif
-#endif
+        else if (g_state.master[world_ranks[i]] == my_master)
         {
             /* same SMP node */
             reg_entry_t *reg_entry = NULL;
@@ -4917,6 +4823,26 @@ STATIC int* _get_world_ranks(comex_igroup_t *igroup)
 }
 
 
+/* exactly one member of the group per progress rank speaks to it */
+STATIC int _is_notifier(comex_igroup_t *igroup)
+{
+    int i = 0;
+    int smallest = g_state.rank;
+    int *world_ranks = _get_world_ranks(igroup);
+
+    for (i=0; i<igroup->size; ++i) {
+        if (g_state.master[world_ranks[i]] == g_state.master[g_state.rank]
+                && world_ranks[i] < smallest) {
+            smallest = world_ranks[i];
+        }
+    }
+
+    free(world_ranks);
+
+    return smallest == g_state.rank;
+}
+
+
 /* we sometimes need to notify a node master of some event and the rank in
  * charge of doing that is returned by this function */
 STATIC int _smallest_world_rank_with_same_hostid(comex_igroup_t *igroup)
-- 
2.43.0


From f18854f97954393ab88d3885a26f261b900e09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 12/48] fix: block-cyclic, grid and tiled arrays on processor
 groups used world ranks and sizes

---
 global/src/base.c     | 20 ++++++++++----------
 global/src/iterator.c |  4 ++--
 global/src/onesided.c | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..6521065 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2646,7 +2646,7 @@ logical pnga_allocate(Integer g_a)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -2659,7 +2659,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2688,7 +2688,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2718,7 +2718,7 @@ logical pnga_allocate(Integer g_a)
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2998,7 +2998,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -3011,7 +3011,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3029,7 +3029,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3048,7 +3048,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -4290,7 +4290,7 @@ void pnga_randomize(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(GA[handle].p_handle),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
 /*
@@ -4389,7 +4389,7 @@ void pnga_fill(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(GA[handle].p_handle),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
       case C_DCPL: 
diff --git a/global/src/iterator.c b/global/src/iterator.c
index 93b60a1..df45b6f 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -579,10 +579,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
 
         /* get pointer to data on remote block */
         pinv = idx%nproc;
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block idx */
@@ -727,10 +727,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         if (n_rstrctd > 0) {
           pinv = rstrctd_list[pinv];
         }
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block */
diff --git a/global/src/onesided.c b/global/src/onesided.c
index acbc425..3336845 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1768,11 +1768,11 @@ void pnga_access_block_ptr(Integer g_a, Integer idx, void* ptr, Integer *ld)
 {
   char *lptr;
   Integer  handle = GA_OFFSET + g_a;
-  Integer  i, j/*, p_handle*/, nblocks, offset, tsum, inode;
+  Integer  i, j, nproc, nblocks, offset, tsum, inode;
   Integer ndim, lo[MAXDIM], hi[MAXDIM], index;
 
   
-  /*p_handle = GA[handle].p_handle;*/
+  nproc = pnga_pgroup_nnodes(GA[handle].p_handle);
   nblocks = GA[handle].block_total;
   ndim = GA[handle].ndim;
   index = idx;
@@ -1781,8 +1781,8 @@ void pnga_access_block_ptr(Integer g_a, Integer idx, void* ptr, Integer *ld)
 
   if (GA[handle].distr_type == BLOCK_CYCLIC) {
     offset = 0;
-    inode = index%GAnproc;
-    for (i=inode; i<index; i += GAnproc) {
+    inode = index%nproc;
+    for (i=inode; i<index; i += nproc) {
       ga_ownsM(handle,i,lo,hi); 
       tsum = 1;
       for (j=0; j<ndim; j++) {
@@ -2292,7 +2292,7 @@ int rc=0;
     pnga_access_block_ptr(g_a, iproc, &ptr_ref, &ldp);
     pnga_release_block(g_a, iproc);
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer index[2];
       gam_find_block_indices(handle, proc, index);
@@ -3993,7 +3993,7 @@ void *pval;
     if(GAme == proc)GAbytes.rdiloc += (double)sizeof(Integer);
 
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer j, index[MAXDIM];
       gam_find_block_indices(handle, proc, index);
-- 
2.43.0


From cbaf31295f574c754a2e5ca36b88754419097ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 13/48] fix: gather and scatter on restricted arrays of a
 processor group addressed the wrong process

---
 global/src/onesided.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3336845..fa340b6 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3514,11 +3514,10 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
         if (num_rstrctd > 0) {
           tproc = GA[handle].rstrctd_list[iproc];
         } else {
-          if (p_handle < 0) {
-            tproc = iproc;
-          } else {
-            tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
-          }
+          tproc = iproc;
+        }
+        if (p_handle >= 0) {
+          tproc = PGRP_LIST[p_handle].inv_map_proc_list[tproc];
         }
         /* perform vector operation */
         switch(op) { 
-- 
2.43.0


From d49a0a8f6915d8043402ee7b3be1587554d0cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 14/48] fix: mpi3 fence did not cover the windows of other
 groups and leaked a group handle per operation

---
 comex/src-mpi3/comex.c  | 26 +++++++++++++++++---------
 comex/src-mpi3/groups.h |  2 ++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 03ab1ef..5d2efbf 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -172,6 +172,7 @@ int get_local_rank_from_win(MPI_Win win, int world_rank, int *local_rank)
     translate_mpi_error(status,"get_local_rank_from_win:MPI_Group_translate_ranks");
     comex_error("MPI_Group_translate_ranks: Failed", status);
   }
+  MPI_Group_free(&group);
 
   return COMEX_SUCCESS;
 }
@@ -1905,13 +1906,18 @@ int comex_fence_proc(int proc, comex_group_t group)
 {
   comex_igroup_t *igroup = NULL;
   win_link_t *curr_win;
-  int ierr;
-  igroup = comex_get_igroup_from_group(group);
-  if (igroup != NULL) {
+  int ierr, world_proc, lproc;
+  comex_group_translate_world(group, proc, &world_proc);
+  /* operations may be outstanding on the windows of any group that contains
+   * the process */
+  for (igroup = group_list; igroup != NULL; igroup = igroup->next) {
     curr_win = igroup->win_list;
     while (curr_win != NULL) {
-      ierr = MPI_Win_flush(proc, curr_win->win);
-      translate_mpi_error(ierr,"comex_fence_proc:MPI_Win_flush");
+      get_local_rank_from_win(curr_win->win, world_proc, &lproc);
+      if (lproc != MPI_UNDEFINED) {
+        ierr = MPI_Win_flush(lproc, curr_win->win);
+        translate_mpi_error(ierr,"comex_fence_proc:MPI_Win_flush");
+      }
       curr_win = curr_win->next;
     }
   }
@@ -2125,16 +2131,18 @@ int comex_wait_all(comex_group_t group)
     comex_igroup_t *igroup = NULL;
     win_link_t *curr_win;
     int ierr;
-    igroup = comex_get_igroup_from_group(group);
-    if (igroup != NULL) {
+    /* operations may be outstanding on the windows of any group */
+    for (igroup = group_list; igroup != NULL; igroup = igroup->next) {
       curr_win = igroup->win_list;
       while (curr_win != NULL) {
 #ifdef USE_MPI_REQUESTS
         ierr = MPI_Win_flush_all(curr_win->win);
         translate_mpi_error(ierr,"comex_wait_all:MPI_Win_flush_all");
 #else
-        ierr = MPI_Win_fence(0,curr_win->win);
-        translate_mpi_error(ierr,"comex_wait_all:MPI_Win_fence");
+        if (igroup->id == group) {
+          ierr = MPI_Win_fence(0,curr_win->win);
+          translate_mpi_error(ierr,"comex_wait_all:MPI_Win_fence");
+        }
 #endif
         curr_win = curr_win->next;
       }
diff --git a/comex/src-mpi3/groups.h b/comex/src-mpi3/groups.h
index 1bdf296..021c50e 100644
--- a/comex/src-mpi3/groups.h
+++ b/comex/src-mpi3/groups.h
@@ -26,6 +26,8 @@ typedef struct group_link {
     win_link_t *win_list;
 } comex_igroup_t;
 
+extern comex_igroup_t *group_list;
+
 extern void comex_group_init();
 extern void comex_group_finalize();
 extern comex_igroup_t* comex_get_igroup_from_group(comex_group_t group);
-- 
2.43.0


From 773f94193eefffe1cf9e4ca7f46da625672fd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 15/48] fix: GA_Fence ignored scatter and strided operations,
 and strided operations on group arrays addressed the wrong process

---
 global/src/onesided.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index fa340b6..73fa05b 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3534,6 +3534,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
             desc.src_ptr_array = ptr_loc;
             desc.dst_ptr_array = ptr_rem;
             desc.ptr_array_len = (int)nelems[iproc];
+            if(GA_fence_set) fence_array[tproc]=1;
             rc=ARMCI_PutV(&desc, 1, (int)tproc);
             if(rc) pnga_error("scatter failed in armci",rc);
             break;
@@ -3551,6 +3552,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
               else if(type==C_LONG)optype= ARMCI_ACC_LNG;
               else if(type==C_FLOAT)optype= ARMCI_ACC_FLT; 
               else pnga_error("type not supported",type);
+              if(GA_fence_set) fence_array[tproc]=1;
               rc= ARMCI_AccV(optype, alpha, &desc, 1, (int)tproc);
             }
             if(rc) pnga_error("scatter_acc failed in armci",rc);
@@ -4267,10 +4269,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
+      if(GA_fence_set)fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4347,10 +4346,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4439,10 +4434,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
+      if(GA_fence_set)fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 0378561d501decfa03556b994cee016df06614e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 16/48] fix: GA_Lock and GA_Unlock mapped every mutex number to
 the same mutex

---
 global/src/base.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 6521065..96ab3f3 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5123,10 +5123,10 @@ void pnga_lock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
 
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = mutex/chunk_mutex;
+   m = mutex%chunk_mutex;
 
    ARMCI_Lock(m,p);
 }
@@ -5143,10 +5143,10 @@ void pnga_unlock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
-   
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
+
+   p = mutex/chunk_mutex;
+   m = mutex%chunk_mutex;
 
    ARMCI_Unlock(m,p);
 }              
-- 
2.43.0


From 4e821cdc42444503b32a55215edeb4de4a3e1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 17/48] fix: mpi-ts processes could lock a mutex before its
 owner had created it

---
 comex/src-mpi/comex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comex/src-mpi/comex.c b/comex/src-mpi/comex.c
index ca89c70..29adc1c 100644
--- a/comex/src-mpi/comex.c
+++ b/comex/src-mpi/comex.c
@@ -2031,6 +2031,9 @@ int comex_create_mutexes(int num)
         }
     }
 
+    /* no process may lock a mutex before its owner has created it */
+    comex_barrier(COMEX_GROUP_WORLD);
+
     return COMEX_SUCCESS;
 }
 
-- 
2.43.0


From e0fc7cfdb66e8df471ac5394e3ee169aec3a6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 18/48] fix: mpi-pr and mpi-pt destroyed only one process's
 mutexes per node, mpi-pr with another process's count

---
 comex/src-mpi-pr/comex.c | 7 +++----
 comex/src-mpi-pt/comex.c | 5 ++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index e43bbed..dc2ace3 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -2239,9 +2239,8 @@ int comex_destroy_mutexes()
      * there are no outstanding lock requests */
     comex_barrier(COMEX_GROUP_WORLD);
 
-    /* let masters know they need to participate */
-    /* first non-master rank in an SMP node sends the message to master */
-    if (_smallest_world_rank_with_same_hostid(group_list) == g_state.rank) {
+    /* every process sends their own destroy message to their master */
+    {
         nb_t *nb = NULL;
         header_t *header = NULL;
 
@@ -2251,7 +2250,7 @@ int comex_destroy_mutexes()
         header->remote_address = NULL;
         header->local_address = NULL;
         header->rank = 0;
-        header->length = num_mutexes[g_state.rank];
+        header->length = num_mutexes[group_list->rank];
         nb = nb_wait_for_handle();
         nb_recv(NULL, 0, my_master, nb); /* prepost ack */
         nb_send_header(header, sizeof(header_t), my_master, nb);
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 4a675c2..9d06a7f 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1808,9 +1808,8 @@ int comex_destroy_mutexes()
      * there are no outstanding lock requests */
     comex_barrier(COMEX_GROUP_WORLD);
 
-    /* let masters know they need to participate */
-    /* first non-master rank in an SMP node sends the message to master */
-    if (_smallest_world_rank_with_same_hostid(group_list) == g_state.rank) {
+    /* every process sends their own destroy message to their master */
+    {
         nb_t *nb = NULL;
         header_t *header = NULL;
 
-- 
2.43.0


From 29f200a962f3a25c3946c6cfdc5e547e491d86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 19/48] fix: group collectives and syncs on the world handle
 used the default group instead

---
 global/src/collect.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/global/src/collect.c b/global/src/collect.c
index 32b564e..8c93256 100644
--- a/global/src/collect.c
+++ b/global/src/collect.c
@@ -90,8 +90,15 @@ void pnga_pgroup_brdcst(Integer grp_id, Integer type, void *buf,
        armci_msg_group_bcast_scope(SCOPE_ALL,buf,(int)len,aroot,(&(PGRP_LIST[p_grp].group)));
 #endif
     } else {
+#ifdef MSG_COMMS_MPI
+       /* the world group, whatever the default group is */
+       ARMCI_Group world;
+       ARMCI_Group_get_world(&world);
+       armci_msg_group_bcast_scope(SCOPE_ALL,buf,(int)len,(int)originator,&world);
+#else
        int aroot = (int)originator;
        armci_msg_bcast(buf, (int)len, (int)aroot);
+#endif
     }
 }
 
@@ -156,7 +163,10 @@ void pnga_msg_pgroup_sync(Integer grp_id)
     }
     else {
 #     if defined(MSG_COMMS_MPI)
-       armci_msg_barrier();
+       /* the world group, whatever the default group is */
+       ARMCI_Group world;
+       ARMCI_Group_get_world(&world);
+       armci_msg_group_barrier(&world);
 #     else
        tcg_synch(GA_TYPE_SYN);
 #    endif
@@ -170,39 +180,45 @@ void pnga_msg_pgroup_sync(Integer grp_id)
 void pnga_pgroup_gop(Integer p_grp, Integer type, void *x, Integer n, char *op)
 {
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-    if (p_grp > 0) {
 #if defined(MSG_COMMS_MPI)
-        int group = (int)p_grp;
+    {
+        /* without a group of its own this is the world group, whatever the
+         * default group is */
+        ARMCI_Group group;
+        if (p_grp > 0) group = PGRP_LIST[(int)p_grp].group;
+        else ARMCI_Group_get_world(&group);
         switch (type){
             case C_INT:
-                armci_msg_group_igop((int*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_igop((int*)x, n, op, &group);
                 break;
             case C_LONG:
-                armci_msg_group_lgop((long*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_lgop((long*)x, n, op, &group);
                 break;
             case C_LONGLONG:
-                armci_msg_group_llgop((long long*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_llgop((long long*)x, n, op, &group);
                 break;
             case C_FLOAT:
-                armci_msg_group_fgop((float*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_fgop((float*)x, n, op, &group);
                 break;
             case C_DBL:
-                armci_msg_group_dgop((double*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_dgop((double*)x, n, op, &group);
                 break;
             case C_SCPL:
-                armci_msg_group_fgop((float*)x, 2*n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_fgop((float*)x, 2*n, op, &group);
                 break;
             case C_DCPL:
-                armci_msg_group_dgop((double*)x, 2*n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_dgop((double*)x, 2*n, op, &group);
                 break;
             default: pnga_error(" wrong data type ",type);
         }
+    }
 #else
+    if (p_grp > 0) {
         pnga_error("Groups not implemented for system",0);
-#endif
     } else {
         pnga_gop(type, x, n, op);
     }
+#endif
 }
 
 
-- 
2.43.0


From 05cf784fb69146269948b759e16b5fb588dd818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 20/48] fix: duplicating a processor group read outside the
 group table and translated its members wrongly

---
 global/src/base.c | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 96ab3f3..7835897 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1216,13 +1216,12 @@ Integer pnga_pgroup_create(Integer *list, Integer count)
 
 Integer pnga_pgroup_duplicate(Integer grp)
 {
-    Integer pgrp_handle, i, j, nprocs, itmp;
+    Integer pgrp_handle, i;
     int tmp_count;
-    int *tmp_list, *tmp2_list;
+    int *tmp_list;
 #ifdef MSG_COMMS_MPI
     ARMCI_Group *tmpgrp;
 #endif
-    Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
@@ -1261,32 +1260,18 @@ Integer pnga_pgroup_duplicate(Integer grp)
           = i;
       }
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
+    tmp_count = (grp != -1) ? PGRP_LIST[grp].map_nproc : GAnproc;
 
+    /* the members, as absolute processor indices */
     tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
+    for (i=0; i<tmp_count; i++) {
+       tmp_list[i] = PGRP_LIST[pgrp_handle].inv_map_proc_list[i];
     }
     
     PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
     PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
+    PGRP_LIST[pgrp_handle].parent = (grp != -1) ? PGRP_LIST[grp].parent : -1;
     PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
 #ifdef MSG_COMMS_MPI
     tmpgrp = &PGRP_LIST[pgrp_handle].group;
 #if ENABLE_CHECKPOINT
@@ -1294,10 +1279,14 @@ Integer pnga_pgroup_duplicate(Integer grp)
        tmpgrp = ARMCI_Get_ft_group();
     else
 #endif
-       ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
+    {
+       ARMCI_Group world;
+       ARMCI_Group_get_world(&world);
+       ARMCI_Group_create_child(tmp_count, tmp_list,
+             &PGRP_LIST[pgrp_handle].group, &world);
+    }
 #endif
 
-    GA_Default_Proc_Group = save_grp;
     /* Clean up temporary arrays */
     free(tmp_list);
 
-- 
2.43.0


From c8e838099df83de653f161483b74196e462bacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 21/48] fix: patch fill, scale and zero and ghost array
 operations on group arrays used the default group

---
 global/src/ghosts.c        | 41 +++++++++++++++++++++++---------------
 global/src/global.nalg.c   | 16 +++++++++++----
 global/src/global.npatch.c | 15 +++++++-------
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..0f340ad 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -69,6 +69,15 @@ extern armci_hdl_t* get_armci_nbhandle(Integer *);
 
 /***************************************************************************/
 
+/* rank of the calling process in the process group the array lives on, which
+ * need not be the default group */
+static Integer gai_rank_in_array_group(Integer g_a)
+{
+  int p_handle = GA[GA_OFFSET + g_a].p_handle;
+  if (p_handle > 0) return (Integer)PGRP_LIST[p_handle].map_proc_list[GAme];
+  return (p_handle == 0) ? pnga_nodeid() : GAme;
+}
+
 /*\ Return a pointer to the location indicated by subscript and and an array
  * of leading dimensions (ld). Assume that subscript refers to a set of local
  * coordinates relative to the origin of the array and account for the
@@ -100,7 +109,7 @@ char *lptr;
 Integer  handle = GA_OFFSET + g_a;
 Integer  i, lo[MAXDIM], hi[MAXDIM];
 Integer ndim = GA[handle].ndim;
-Integer me = pnga_nodeid();
+Integer me = gai_rank_in_array_group(g_a);
 
 
    pnga_distribution(g_a, me, lo, hi);
@@ -130,7 +139,7 @@ Integer i=0;
 Integer tmp_sub[MAXDIM];
 unsigned long    elemsize=0;
 unsigned long    lref=0, lptr=0;
-Integer me = pnga_nodeid();
+Integer me = gai_rank_in_array_group(g_a);
    /* Indices conform to Fortran convention. Shift them down 1 so that
       gam_LocationWithGhosts works. */
    for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1;
@@ -201,7 +210,7 @@ void pnga_access_ghost_element_ptr(Integer g_a, void *ptr,
   Integer  handle = GA_OFFSET + g_a; 
   Integer i; 
   Integer tmp_sub[MAXDIM]; 
-  Integer me = pnga_nodeid(); 
+  Integer me = gai_rank_in_array_group(g_a); 
   /* Indices conform to Fortran convention. Shift them down 1 so that 
      gam_LocationWithGhosts works. */ 
   for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1; 
@@ -406,7 +415,7 @@ void pnga_update1_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM], count[MAXDIM];
   char *ptr_loc, *ptr_rem;
   logical hasData = TRUE;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -822,7 +831,7 @@ logical pnga_update2_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1062,7 +1071,7 @@ logical pnga_update3_ghosts(Integer g_a)
   Integer ld_loc[MAXDIM], ld_rem[MAXDIM];
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1312,7 +1321,7 @@ logical pnga_set_update4_info(Integer g_a)
   /*int corner_flag;*/
   char **ptr_snd, **ptr_rcv, *cache;
   char *current;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1694,7 +1703,7 @@ logical pnga_update4_ghosts(Integer g_a)
   char **ptr_snd, **ptr_rcv, *cache, *current;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   /*Integer p_handle;*/
 
   /* This routine makes use of the shift algorithm to update data in the
@@ -1954,7 +1963,7 @@ logical pnga_update44_ghosts(Integer g_a)
   char *ptr_snd, *ptr_rcv;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2487,7 +2496,7 @@ logical pnga_update55_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   int msgcnt;
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2767,7 +2776,7 @@ void pnga_update_ghosts_nb(Integer g_a, Integer *nbhandle)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2935,7 +2944,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   logical flag;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3304,7 +3313,7 @@ logical pnga_set_update5_info(Integer g_a)
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
   int scope;
 #endif
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3587,7 +3596,7 @@ logical pnga_update6_ghosts(Integer g_a)
   char /* *ptr_loc,*/ *ptr_rem;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle, wproc;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4134,7 +4143,7 @@ logical pnga_update7_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4303,7 +4312,7 @@ void pnga_nbget_ghost_dir(Integer g_a,
   Integer subscript[MAXDIM], ld[MAXDIM];
   Integer i, ndim, dim, width;
   char *ptr_loc;
-  Integer me = pnga_nodeid();
+  Integer me = gai_rank_in_array_group(g_a);
   /*Integer p_handle;*/
   ndim = GA[handle].ndim;
   /*p_handle = GA[handle].p_handle;*/
diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 4a56072..350089d 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -82,15 +82,23 @@ void pnga_zero(Integer g_a)
   num_blocks = pnga_total_blocks(g_a);
 
   pnga_inquire(g_a, &type, &ndim, _dims);
+  if (num_blocks < 0 && pnga_has_ghosts(g_a)) {
+    /* every process of the group takes part, also without data */
+    Integer i;
+    for (i=0; i<ndim; i++) {
+      _lo[i] = 1;
+      _hi[i] = _dims[i];
+    }
+    _ga_sync_begin = 0; /* already done */
+    _ga_sync_end = local_sync_end;
+    pnga_zero_patch(g_a,_lo,_hi);
+    return;
+  }
   if (num_blocks < 0) {
     pnga_distribution(g_a, me, _lo, _hi);
 
     if ( _lo[0]> 0 ){ /* base index is 1: we get 0 if no elements stored on p */
 
-      if (pnga_has_ghosts(g_a)) {
-        pnga_zero_patch(g_a,_lo,_hi);
-        return;
-      }
       pnga_access_ptr(g_a, _lo, _hi, &ptr, _ld);
       GET_ELEMS(ndim,_lo,_hi,_ld,&elems);
 
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 56abf7c..55aac5e 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -1669,7 +1669,7 @@ void pnga_fill_patch(Integer g_a, Integer *lo, Integer *hi, void* val)
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-  if(local_sync_begin)pnga_sync(); 
+  if(local_sync_begin)pnga_pgroup_sync(pnga_get_pgroup(g_a)); 
 
 
   pnga_inquire(g_a,  &type, &ndim, dims);
@@ -1924,7 +1924,7 @@ void pnga_fill_patch(Integer g_a, Integer *lo, Integer *hi, void* val)
     }
   }
 #endif
-  if(local_sync_end)pnga_sync();
+  if(local_sync_end)pnga_pgroup_sync(pnga_get_pgroup(g_a));
 }
 
 
@@ -2086,7 +2086,7 @@ void pnga_scale_patch(Integer g_a, Integer *lo, Integer *hi, void *alpha)
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-  if(local_sync_begin)pnga_sync();
+  if(local_sync_begin)pnga_pgroup_sync(pnga_get_pgroup(g_a));
 
 
   pnga_inquire(g_a,  &type, &ndim, dims);
@@ -2336,7 +2336,7 @@ void pnga_scale_patch(Integer g_a, Integer *lo, Integer *hi, void *alpha)
     }
   }
 #endif
-  if(local_sync_end)pnga_sync();   
+  if(local_sync_end)pnga_pgroup_sync(pnga_get_pgroup(g_a));   
 }
 
 /*\ Utility function to accumulate patch values C = C + alpha*A
@@ -3134,7 +3134,7 @@ void *alpha, *beta;
 #endif
 void pnga_zero_patch(Integer g_a, Integer *lo, Integer *hi)
 {
-    Integer ndim, dims[MAXDIM], type;
+    Integer ndim, dims[MAXDIM], type, p_handle;
     int ival = 0;
     long lval = 0; 
     long llval = 0; 
@@ -3147,7 +3147,8 @@ void pnga_zero_patch(Integer g_a, Integer *lo, Integer *hi)
     
     local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-    if(local_sync_begin)pnga_sync();
+    p_handle = pnga_get_pgroup(g_a);
+    if(local_sync_begin)pnga_pgroup_sync(p_handle);
 
     
     pnga_inquire(g_a,  &type, &ndim, dims);
@@ -3184,5 +3185,5 @@ void pnga_zero_patch(Integer g_a, Integer *lo, Integer *hi)
     }
     pnga_fill_patch(g_a, lo, hi, valptr);
     
-    if(local_sync_end)pnga_sync();
+    if(local_sync_end)pnga_pgroup_sync(p_handle);
 }
-- 
2.43.0


From 87b8bd8ea10dda9e694d9ba99e1e1389cd24f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 22/48] fix: mpi-ts blocked in group creation without serving
 the requests other members wait for

---
 comex/src-mpi/groups.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/comex/src-mpi/groups.c b/comex/src-mpi/groups.c
index bc4a082..ec48b54 100644
--- a/comex/src-mpi/groups.c
+++ b/comex/src-mpi/groups.c
@@ -14,10 +14,15 @@
 comex_igroup_t *group_list = NULL;
 
 
+/* tag of the messages which gather the members of a new group */
+#define COMEX_TAG_GROUP (COMEX_TAG+1)
+
 /* static functions implemented in this file */
 static void comex_create_group_and_igroup(
         comex_group_t *id, comex_igroup_t **igroup);
 static void comex_igroup_finalize(comex_igroup_t *igroup);
+static void comex_group_gather(
+        int n, int me, const int *pid_list, MPI_Comm comm);
 
 
 /**
@@ -185,6 +190,38 @@ int comex_group_free(comex_group_t id)
 }
 
 
+/**
+ * Wait until all members of a new group are creating it.
+ *
+ * The MPI calls which create the communicator block without serving one-sided
+ * requests, and other processes, future members included, may depend on these
+ * being served before they get there.
+ */
+static void comex_group_gather(
+        int n, int me, const int *pid_list, MPI_Comm comm)
+{
+    int lvl;
+
+    for (lvl=1; lvl<n; lvl<<=1) {
+        MPI_Request requests[2];
+        int status;
+        int done = 0;
+
+        status = MPI_Irecv(NULL, 0, MPI_CHAR, pid_list[(me-lvl+n)%n],
+                COMEX_TAG_GROUP, comm, &requests[0]);
+        assert(MPI_SUCCESS == status);
+        status = MPI_Isend(NULL, 0, MPI_CHAR, pid_list[(me+lvl)%n],
+                COMEX_TAG_GROUP, comm, &requests[1]);
+        assert(MPI_SUCCESS == status);
+        while (!done) {
+            comex_make_progress();
+            status = MPI_Testall(2, requests, &done, MPI_STATUSES_IGNORE);
+            assert(MPI_SUCCESS == status);
+        }
+    }
+}
+
+
 int comex_group_create(
         int n, int *pid_list, comex_group_t id_parent, comex_group_t *id_child)
 {
@@ -223,6 +260,7 @@ int comex_group_create(
         }
         /* SK: sanity check for the following bitwise operations */
         assert(grp_me>=0);
+        comex_group_gather(n, grp_me, pid_list, *comm_parent);
         MPI_Comm_dup(MPI_COMM_SELF, &comm); /* FIXME: can be optimized away */
         local_ldr_pos = grp_me;
         while(n>lvl) {
-- 
2.43.0


From 34d0b0d61f1dc55cbc57d53ce1db37b6f705abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 23/48] fix: region location on block-cyclic, grid and tiled
 arrays missed enclosing blocks and reported wrong blocks

---
 global/src/base.c | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 7835897..74a2138 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4618,11 +4618,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the block interval and the interval
+         * represented by lo and hi overlap */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4809,11 +4807,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the block interval and the interval
+         * represented by lo and hi overlap */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4851,23 +4847,16 @@ logical pnga_locate_region( Integer g_a,
     }
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
-      Integer idx = 0;
-      Integer factor = 1;
-      Integer iproc;
-      Integer p_handle = GA[ga_handle].p_handle;
-      Integer size = pnga_pgroup_nnodes(p_handle);
-      for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
-      }
+      Integer idx;
+      gam_find_block_from_indices(ga_handle,idx,count);
       proclist[cnt] = idx;
       /* store information on this block */
       offset = 2*cnt*ndim;
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
@@ -5599,11 +5588,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the block interval and the interval
+         * represented by lo and hi overlap */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
-- 
2.43.0


From 9f835d40883684f51b010d98f288037841d143d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 24/48] fix: ghost operations from C used wrong dimension
 numbers and masks, group arrays fetched from the wrong process, duplicates
 updated through uninitialised pointers, field transfers were off by one in
 the leading dimension

---
 global/src/base.c   | 12 ++++++++++--
 global/src/capi.c   | 20 ++++++++++----------
 global/src/ghosts.c |  2 +-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 74a2138..ef734f7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3784,9 +3784,9 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].mapc[maplen] = -1;
   }
 
-  /*** if ghost cells are used, initialize ghost cache data ***/
+  /*** caches belong to a single array ***/
   GA[ga_handle].cache = NULL;
-  pnga_set_ghost_info(*g_b);
+  GA[ga_handle].cache_head = NULL;
 
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
@@ -3833,6 +3833,14 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].ptr[grp_me]=NULL;
   }
 
+  /*** if ghost cells are used, initialize ghost cache data now that the
+       location of the memory is known ***/
+  if (status && GA[ga_handle].distr_type == REGULAR &&
+      GA[ga_handle].ghosts == 1) {
+    if (!pnga_set_ghost_info(*g_b))
+      pnga_error("Could not allocate update information for ghost cells",0);
+  }
+
   if(local_sync_end)pnga_pgroup_sync(grp_id);
 
 #     ifdef GA_CREATE_INDEF
diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..4c27342 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1560,11 +1560,11 @@ void NGA_Merge_distr_patch64(int g_a, int64_t *alo, int64_t *ahi,
 int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
 {
     Integer a=(Integer)g_a;
-    Integer idim = (Integer)dimension;
+    /* dimensions are numbered in the opposite order in C */
+    Integer idim = wnga_ndim(a) - (Integer)dimension;
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
@@ -1574,7 +1574,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1583,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld, ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld, ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
@@ -5290,7 +5290,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5303,7 +5303,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5316,7 +5316,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5329,7 +5329,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 0f340ad..ede61d2 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -387,7 +387,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
-- 
2.43.0


From 27e836c4ff899390e12f08bba6fe1a7a1c599bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 25/48] fix: mpi-pt registration cache was searched by the
 progress thread while the application thread modified it

---
 comex/src-mpi-pt/reg_cache.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/comex/src-mpi-pt/reg_cache.c b/comex/src-mpi-pt/reg_cache.c
index 3f82066..373333c 100644
--- a/comex/src-mpi-pt/reg_cache.c
+++ b/comex/src-mpi-pt/reg_cache.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <pthread.h>
 
 /* 3rd party headers */
 #include <mpi.h>
@@ -27,6 +28,10 @@
 static reg_entry_t **reg_cache = NULL; /**< list of caches (one per process) */
 static int reg_nprocs = 0; /**< number of caches (one per process) */
 
+/* the caches are searched by the progress thread while the application
+ * thread registers and deregisters memory */
+static pthread_mutex_t reg_lock = PTHREAD_MUTEX_INITIALIZER;
+
 
 /* the static functions in this module */
 static reg_return_t seg_cmp(void *reg_addr, size_t reg_len,
@@ -391,6 +396,8 @@ reg_cache_find(int rank, void *buf, size_t len)
     COMEX_ASSERT(NULL != reg_cache);
     COMEX_ASSERT(0 <= rank && rank < reg_nprocs);
 
+    pthread_mutex_lock(&reg_lock);
+
     runner = reg_cache[rank];
 
     while (runner && NULL == entry) {
@@ -426,6 +433,8 @@ reg_cache_find(int rank, void *buf, size_t len)
     }
 #endif
 
+    pthread_mutex_unlock(&reg_lock);
+
     return entry;
 }
 
@@ -457,6 +466,8 @@ reg_cache_find_intersection(int rank, void *buf, size_t len)
     COMEX_ASSERT(NULL != reg_cache);
     COMEX_ASSERT(0 <= rank && rank < reg_nprocs);
 
+    pthread_mutex_lock(&reg_lock);
+
     runner = reg_cache[rank];
 
     while (runner && NULL == entry) {
@@ -474,6 +485,8 @@ reg_cache_find_intersection(int rank, void *buf, size_t len)
         runner = runner->next;
     }
 
+    pthread_mutex_unlock(&reg_lock);
+
     return entry;
 }
 
@@ -528,6 +541,7 @@ reg_cache_insert(int rank, void *buf, size_t len, const char *name,
     node->next = NULL;
 
     /* push new entry to tail of linked list */
+    pthread_mutex_lock(&reg_lock);
     if (NULL == reg_cache[rank]) {
         reg_cache[rank] = node;
     }
@@ -538,6 +552,7 @@ reg_cache_insert(int rank, void *buf, size_t len, const char *name,
         }
         runner->next = node;
     }
+    pthread_mutex_unlock(&reg_lock);
 
     return node;
 }
@@ -579,6 +594,7 @@ reg_cache_delete(int rank, void *buf)
 
     /* this is more restrictive than reg_cache_find() in that we locate
      * exactlty the same region starting address */
+    pthread_mutex_lock(&reg_lock);
     runner = reg_cache[rank];
     while (runner) {
         if (runner->buf == buf) {
@@ -589,6 +605,7 @@ reg_cache_delete(int rank, void *buf)
     }
     /* we should have found an entry */
     if (NULL == runner) {
+        pthread_mutex_unlock(&reg_lock);
         COMEX_ASSERT(0);
         return RR_FAILURE;
     }
@@ -601,6 +618,8 @@ reg_cache_delete(int rank, void *buf)
         reg_cache[rank] = reg_cache[rank]->next;
     }
 
+    pthread_mutex_unlock(&reg_lock);
+
     status = reg_entry_destroy(rank, runner);
 
     return status;
-- 
2.43.0


From 744e45661892a0cf5a6a283d332b2f23878d79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 26/48] fix: matrix products on groups and block-cyclic arrays
 used wrong processes, offsets and buffer sizes; planes of higher-dimensional
 arrays were transposed along the wrong dimensions

---
 global/src/matmul.c | 115 ++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 62 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..afc6aa6 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -181,7 +181,7 @@ static void gai_get_chunk_size(int irregular,Integer *Ichunk,Integer *Jchunk,
     double temp;
     Integer min_tasks = MINTASKS; /* Increase tasks if there is load imbalance.
 				     This controls the granularity of chunks */
-    Integer  max_chunk, nproc=pnga_nnodes(), tmpa, tmpb;
+    Integer  max_chunk, nproc=pnga_pgroup_nnodes(a_grp), tmpa, tmpb;
     Integer avail = pnga_memory_avail_type(atype);
 
     tmpa = *Ichunk;
@@ -358,7 +358,7 @@ static void gai_matmul_shmem(transa, transb, alpha, beta, atype,
      short int need_scaling;
 {
 
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_c));
   Integer get_new_B, loC[2]={0,0}, hiC[2]={0,0}, ld[2];
   Integer i0, i1, j0, j1;
   Integer ilo, ihi, idim, jlo, jhi, jdim, klo, khi, kdim, adim, bdim=0, cdim;
@@ -838,7 +838,7 @@ static void gai_matmul_irreg(transa, transb, alpha, beta, atype,
 #if DEBUG_
   Integer me= pnga_nodeid();
 #endif
-  Integer nproc=pnga_nnodes();
+  Integer nproc=pnga_pgroup_nnodes(pnga_get_pgroup(g_a));
   Integer get_new_B, i, i0, i1, j0, j1;
   Integer ilo, ihi, idim, jlo, jhi, jdim, klo, khi, kdim, ijk=0;
   Integer n, m, k, adim, bdim=0, cdim;
@@ -1300,7 +1300,7 @@ void pnga_matmul(transa, transb, alpha, beta,
 {
     DoubleComplex *a=NULL, *b, *c, *a_ar[2], *b_ar[2], *c_ar[2];
     Integer adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[2];
-    Integer atype, btype, ctype, rank, me= pnga_nodeid();
+    Integer atype, btype, ctype, rank, me;
     Integer n, m, k, Ichunk, Kchunk, Jchunk;
     Integer loA[2]={0,0}, hiA[2]={0,0};
     Integer loB[2]={0,0}, hiB[2]={0,0};
@@ -1322,6 +1322,8 @@ void pnga_matmul(transa, transb, alpha, beta,
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
     if(local_sync_begin)pnga_pgroup_sync(a_grp);
 
+    /* distributions are queried with the rank in the arrays' group */
+    me = pnga_pgroup_nodeid(a_grp);
 
     if (a_grp != b_grp || a_grp != c_grp)
        pnga_error("Arrays must be defined on same group",0L);
@@ -1427,6 +1429,7 @@ void pnga_matmul(transa, transb, alpha, beta,
        loC[1] = cjlo;
        hiC[0] = cihi;
        hiC[1] = cjhi;
+       _ga_sync_begin = 0; _ga_sync_end = local_sync_end;
        pnga_matmul_basic(transa, transb, alpha, beta, g_a, loA, hiA,
          g_b, loB, hiB, g_c, loC, hiC);
        return;
@@ -2032,6 +2035,7 @@ void gai_matmul_patch(char *transa, char *transb, void *alpha, void *beta,
    DoubleComplex *a, *b, *c;
 #endif
 Integer atype, btype, ctype, adim1, adim2, bdim1, bdim2, cdim1, cdim2;
+Integer grp = pnga_get_pgroup(g_c);
 Integer me= pnga_nodeid(), nproc, inode, iproc;
 Integer i, ijk = 0, i0, i1, j0, j1;
 Integer ilo, ihi, idim, jlo, jhi, jdim, klo, khi, kdim;
@@ -2058,10 +2062,11 @@ BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
    
    local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
    _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-   if(local_sync_begin)pnga_sync();
+   if(local_sync_begin)pnga_pgroup_sync(grp);
 
    if (pnga_total_blocks(g_a) > 0 || pnga_total_blocks(g_b) > 0 ||
        pnga_total_blocks(g_c) > 0) {
+     _ga_sync_begin = 0; _ga_sync_end = local_sync_end;
      pnga_matmul_basic(transa, transb, alpha, beta, g_a, alo, ahi,
          g_b, blo, bhi, g_c, clo, chi);
      return;
@@ -2077,8 +2082,8 @@ BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
      nproc = pnga_cluster_nprocs(inode);
      iproc = me - pnga_cluster_procid(inode, ZERO_I);
    } else {
-     nproc = pnga_nnodes();
-     iproc = me;
+     nproc = pnga_pgroup_nnodes(grp);
+     iproc = pnga_pgroup_nodeid(grp);
    }
 
    pnga_inquire(g_a, &atype, &arank, adims);
@@ -2211,8 +2216,8 @@ BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
        /*if memory if very limited, performance degrades for large matrices
 	 as chunk size is very small, which leads to communication overhead)*/
        Integer avail = pnga_memory_avail_type(atype);
-       pnga_gop(pnga_type_f2c(MT_F_INT), &avail, (Integer)1, "min");
-       if(avail<MINMEM && pnga_nodeid()==0) pnga_error("Not enough memory",avail);
+       pnga_pgroup_gop(grp, pnga_type_f2c(MT_F_INT), &avail, (Integer)1, "min");
+       if(avail<MINMEM && iproc==0) pnga_error("Not enough memory",avail);
        elems = (Integer)(avail*0.9);/* Donot use every last drop */
        
        max_chunk=GA_MIN(max_chunk, (Integer)(sqrt( (double)((elems-EXTRA)/3))));
@@ -2365,7 +2370,7 @@ BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
    pnga_free(a);
 #endif
    
-   if(local_sync_end)pnga_sync(); 
+   if(local_sync_end)pnga_pgroup_sync(grp); 
 }
 
 /*\ MATRIX MULTIPLICATION for 2d patches of multi-dimensional arrays 
@@ -2419,7 +2424,7 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
     Integer g_b, Integer blo[], Integer bhi[], 
     Integer g_c, Integer clo[], Integer chi[])
 {
-  int aivec, bivec;
+  int aivec = -1, bivec = -1;
   int e, d, ipos, jpos;
   Integer atype, btype, arank, brank, lo, hi;
   Integer adims[GA_MAX_DIM],bdims[GA_MAX_DIM];
@@ -2427,7 +2432,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
    * non-unit dimensions */
   if (*transa == 't' || *transa == 'T') {
     pnga_inquire(g_a, &atype, &arank, adims);
-    aivec = -1;
+    ipos = 0;
+    jpos = 1;
     if (arank > 2) {
       ipos = -1;
       jpos = -1;
@@ -2445,7 +2451,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
         }
       }
       if (e == 0) {
-        aivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         aivec = ipos;
@@ -2455,20 +2462,19 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
           jpos = ipos;
           ipos--;
         }
-      } else {
-        aivec = -1;
       }
     }
-    lo = alo[0];
-    hi = ahi[0];
-    alo[0] = alo[1];
-    ahi[0] = ahi[1];
-    alo[1] = lo;
-    ahi[1] = hi;
+    lo = alo[ipos];
+    hi = ahi[ipos];
+    alo[ipos] = alo[jpos];
+    ahi[ipos] = ahi[jpos];
+    alo[jpos] = lo;
+    ahi[jpos] = hi;
   }
   if (*transb == 't' || *transb == 'T') {
     pnga_inquire(g_b, &btype, &brank, bdims);
-    bivec = -1;
+    ipos = 0;
+    jpos = 1;
     if (brank > 2) {
       ipos = -1;
       jpos = -1;
@@ -2486,33 +2492,25 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
         }
       }
       if (e == 0) {
-        bivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         bivec = ipos;
-        if (ipos < arank-1) {
+        if (ipos < brank-1) {
           jpos = ipos + 1;
         } else {
           jpos = ipos;
           ipos--;
         }
-      } else {
-        bivec = -1;
       }
-      lo = blo[ipos];
-      hi = bhi[ipos];
-      blo[ipos] = blo[jpos];
-      bhi[ipos] = bhi[jpos];
-      blo[jpos] = lo;
-      bhi[jpos] = hi;
-    } else {
-      lo = blo[0];
-      hi = bhi[0];
-      blo[0] = blo[1];
-      bhi[0] = bhi[1];
-      blo[1] = lo;
-      bhi[1] = hi;
     }
+    lo = blo[ipos];
+    hi = bhi[ipos];
+    blo[ipos] = blo[jpos];
+    bhi[ipos] = bhi[jpos];
+    blo[jpos] = lo;
+    bhi[jpos] = hi;
   }
 
 
@@ -2578,6 +2576,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
   Integer adims[GA_MAX_DIM],bdims[GA_MAX_DIM],cdims[GA_MAX_DIM],tmpld[GA_MAX_DIM];
   Integer n, m, k, nb, adim, bdim, cdim, arank, brank, crank;
   Integer loC[MAXDIM], hiC[MAXDIM], lot[MAXDIM], hit[MAXDIM], lC[MAXDIM];
+  Integer grp = pnga_get_pgroup(g_c);
   Integer nlo, loA[MAXDIM], hiA[MAXDIM], loB[MAXDIM], hiB[MAXDIM];
   DoubleComplex ONE_Z;
   SingleComplex ONE_F;
@@ -2593,7 +2592,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-  if(local_sync_begin)pnga_sync();
+  if(local_sync_begin)pnga_pgroup_sync(grp);
 
   /* For the time being, punt on transposes*/
   if (*transa == 't' || *transa == 'T' || *transb == 't' || *transb == 'T') {
@@ -2665,20 +2664,21 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
         */
-    /* Copy limits since patch intersect modifies loC array */
+    /* Copy limits since patch intersect modifies its second patch */
     for (n=0; n<crank; n++) {
       lot[n] = loC[n];
       hit[n] = hiC[n];
     }
 
     /* check to see if this block overlaps with patch on C */
-    if (pnga_patch_intersect(loC,hiC,lot,hit,crank)) {
+    if (pnga_patch_intersect(clo,chi,lot,hit,crank)) {
       int istart, in;
+      Integer rows = hit[0]-lot[0]+1;
+      Integer cols = hit[1]-lot[1]+1;
 
       /* Calculating number of blocks for inner dimension. Assume that 
        * number of rows in block returned by iterator is a good size */
@@ -2689,9 +2689,9 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
+      /* blocks of the inner dimension are at most rows wide */
+      a_buf = (void*)malloc(rows*rows*elemsize);
+      b_buf = (void*)malloc(rows*cols*elemsize);
 
       /* calculate starting block index */
       istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
@@ -2705,16 +2705,12 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         in = istart + nb;
         in = in%num_blocks;
         nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
-        hiA[1] = loA[1]+(hit[0]-lot[0]);
+        hiA[1] = loA[1]+rows-1;
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2723,18 +2719,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
         nlo = blo[0]+in*(hit[0]-lot[0]+1);
         loB[0] = nlo;
-        hiB[0] = loB[0]+(hit[0]-lot[0]);
+        hiB[0] = loB[0]+rows-1;
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
@@ -2790,5 +2781,5 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
       free(b_buf);
     }
   }
-  if(local_sync_end)pnga_sync(); 
+  if(local_sync_end)pnga_pgroup_sync(grp); 
 }
-- 
2.43.0


From 02d368afcb12d229af6adb5d2fa729e68dd1aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 27/48] fix: binning used stale counts in the offset tree,
 ignored the default group, read bin ranges before they were complete and
 leaked its arrays

---
 global/src/sparse.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..1162d7a 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -17,6 +17,7 @@
 #include "macdecls.h"
 #include "message.h"
 #include "ga-papi.h"
+#include "base.h"
 #include "ga-wapi.h"
 
 /*\ sets values for specified array elements by enumerating with stride
@@ -702,16 +703,26 @@ int workR[NWORK], workL[NWORK];
 /*\ compute offset for each of n bins for the given processor to contribute its
  *  elements, number of which for each bin is specified in x
 \*/ 
-static void sgai_bin_offset(int scope, int *x, int n, int *offset)
+static void sgai_bin_offset(int *x, int n, int *offset)
 {
 int root, up, left, right;
-int len, lenmes, tag=32100, i, me=armci_msg_me();
+int len, lenmes, tag=32100, i, me=(int)pnga_nodeid(), nproc=(int)pnga_nnodes();
 
     if(!x)pnga_error("sgai_bin_offset: NULL pointer", n);
     if(n>NWORK)pnga_error("sgai_bin_offset: >NWORK", n);
     len = sizeof(int)*n;
 
-    armci_msg_bintree(scope, &root, &up, &left, &right);
+    /* binary tree over the processes of the default group */
+    root = 0;
+    up    = me>0 ? (me-1)/2 : -1;
+    left  = 2*me+1<nproc ? 2*me+1 : -1;
+    right = 2*me+2<nproc ? 2*me+2 : -1;
+    if(GA_Default_Proc_Group > 0){ /* messages are addressed to world ranks */
+       int *world = PGRP_LIST[GA_Default_Proc_Group].inv_map_proc_list;
+       if(up>-1)    up    = world[up];
+       if(left>-1)  left  = world[left];
+       if(right>-1) right = world[right];
+    }
 
     /* up-tree phase: collect number of elements */
     if (left > -1) armci_msg_rcv(tag, workL, len, &lenmes, left);
@@ -735,7 +746,8 @@ int len, lenmes, tag=32100, i, me=armci_msg_me();
     if (right > -1) armci_msg_snd(tag, offset, len, right);
     if (left > -1) {
             /* we saved num elems for right subtree to adjust offset for left*/
-            for(i=0; i<n; i++) workR[i] = offset[i] -workR[i]; 
+            if (right > -1) for(i=0; i<n; i++) workR[i] = offset[i] -workR[i];
+            else for(i=0; i<n; i++) workR[i] = offset[i];
             armci_msg_snd(tag, workR, len, left);
     }
 /*    printf("%d:left=%d right=%d up=%d root=%d off=%d\n",me,left, right,up,root,offset[0]);
@@ -841,6 +853,7 @@ Integer tlo[2], thi[2];
           }
       }
    }
+   pnga_sync(); /* the ranges are read by the owners of the bins */
    return TRUE;
 }
 
@@ -887,8 +900,11 @@ Integer g_range;
             gai_hsort(ptr, elems);
             ptr+=elems;
         }
+        free(bin_cnt);
         pnga_release_update(g_bin, &lo, &hi);             
     }
+    if(!pnga_destroy(g_range))
+        pnga_error("ga_bin_sorter: failed to destroy temp bin range array",0);
 
     pnga_sync();
 }
@@ -928,7 +944,7 @@ Integer type, ndim, nbin;
     /* process bins in chunks to match available buffer space */
     for(i=0; i<nbin; i+=NWORK){
         int cnbin = ((i+NWORK)<nbin) ? NWORK: nbin -i;
-        sgai_bin_offset(SCOPE_ALL, all_bin_contrib+i, cnbin, offset+i);
+        sgai_bin_offset(all_bin_contrib+i, cnbin, offset+i);
     }
 
     for(i=0; i< n; ){
-- 
2.43.0


From b31419a7bf65924d38c3680274edc7c9120a480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 28/48] fix: EAF end-of-file and probe status, memory files
 (asynchronous requests, bounds, reopen, deletion)

---
 pario/eaf/eaf.c     | 35 +++++++++++++++--------------------
 pario/eaf/eaf_f2c.c |  2 +-
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index eb8aa33..e6c2627 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -57,7 +57,7 @@
 #   include <sys/time.h>
 #endif
 
-#include "elio.h"
+#include "eliop.h"
 #include "eaf.h"
 #include "eafP.h"
 #include "macdecls.h"
@@ -149,8 +149,8 @@ int EAF_Open(const char *fname, int type, int *fd)
     if (i == EAF_MAX_FILES) return EAF_ERR_MAX_OPEN;
 	
     file[i].size=0;
-    for (j=0; j< i; j++){
-      if(strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
+    for (j=0; j< EAF_MAX_FILES; j++){
+      if(file[j].fname && strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
 	found=1;
 	break;
       }
@@ -172,7 +172,7 @@ int EAF_Open(const char *fname, int type, int *fd)
 
 	if (!MA_alloc_get(MT_CHAR, file[i].size, fname, &handle, &index))
 	  return EAF_ERR_OPEN;
-	if ((i +1) > eafhack_openfiles) eafhack_openfiles++;
+	if ((i +1) > eafhack_openfiles) eafhack_openfiles = i+1;
     /* MA hack: we pass   type = sizeof MA alloc in megabytes */
 	MA_get_pointer(handle, &ptr);
     if (!(file[i].fname = strdup(fname)))
@@ -306,13 +306,14 @@ int EAF_Awrite(
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if(offset+bytes>file[fd].size){
 	rc=0;
 	printf("eaf_awrite: offset %f larger than MA size %ld \n", offset, file[fd].size);
 	return EAF_ERR_WRITE;
       }else{
       memcpy(((char*)file[fd].pointer)+(long)offset, buf, bytes);
-      rc=bytes;
+      req=ELIO_DONE;
+      rc=0;
       }
     }else{
     rc = elio_awrite(file[fd].elio_fd, (Off_t)offset, buf, (Size_t)bytes, &req);
@@ -339,7 +340,7 @@ int EAF_Read(int fd, eaf_off_t offset, void *buf, size_t bytes)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
     
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if(offset+bytes>file[fd].size){
 	rc=0;
 	printf("eaf_read: offset %f larger than MA size %ld \n", offset, file[fd].size);
       }else{
@@ -377,12 +378,13 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if(offset+bytes>file[fd].size){
 	rc=0;
 	printf("eaf_aread: offset %f larger than MA size %ld \n", offset, file[fd].size);
         return EAF_ERR_READ;
       }else{
-      memcpy(file[fd].pointer, buf, bytes);
+      memcpy(buf, ((char*)file[fd].pointer)+(long)offset, bytes);
+      req=ELIO_DONE;
       rc=0;
       }
     }else{
@@ -406,7 +408,7 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
 int EAF_Wait(int fd, int req_id)
 {
     double start = wall_time();
-    int code;
+    int code = EAF_OK;
 
     io_request_t req = req_id;
     if (file[fd].size > 0) {
@@ -430,16 +432,8 @@ int EAF_Probe(int req_id, int *status)
 {
     io_request_t req = req_id;
     int rc;
-#if 0
-    if (file[fd].size > 0) {
-      /* got nothin' to do */
-      rc=0;
-    }else{
+    /* requests on memory files are complete when issued (ELIO_DONE) */
     rc = elio_probe(&req, status);
-    }
-#else
-    rc=0;
-#endif
     if(!rc) *status = !(*status == ELIO_DONE);
     return rc;
 }
@@ -534,7 +528,8 @@ int EAF_Stat(const char *path, long *avail_mb, char *fstype, int fslen)
  */
 int EAF_Eof(int code)
 {
-    return !(code == EAF_ERR_EOF);
+    /* reads of regular files report the end of file with the ELIO code */
+    return !(code == EAF_ERR_EOF || code == EOFFAIL);
 }
 
 
diff --git a/pario/eaf/eaf_f2c.c b/pario/eaf/eaf_f2c.c
index b1afad3..bd22681 100644
--- a/pario/eaf/eaf_f2c.c
+++ b/pario/eaf/eaf_f2c.c
@@ -135,7 +135,7 @@ Integer FATR eaf_length_(Integer *fd, double *length)
 
 logical eaf_eof_(Integer *code)
 {
-    return (logical) EAF_Eof((int) *code);
+    return (logical) (EAF_Eof((int) *code) == 0);
 }
 
 
-- 
2.43.0


From cceda8f4bc849815e1bcf3e0fccb8657f193e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 29/48] fix: waiting for a non-blocking request that has
 already completed is silent

---
 global/src/nbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/global/src/nbutil.c b/global/src/nbutil.c
index 368f765..f101b3d 100644
--- a/global/src/nbutil.c
+++ b/global/src/nbutil.c
@@ -224,10 +224,8 @@ int nga_wait_internal(Integer *nbhandle){
    * so the handle can be used for another GA non-blocking call. Just return in
    * this case */
   if (tag == ga_ihdl_array[index].ga_nbtag) {
-    if (ga_ihdl_array[index].active == 0) {
-      printf("p[%ld] nga_wait_internal: GA NB handle %d inactive slot: %d tag: %d\n",
-          GAme,*((int*)inbhandle),index,tag);
-    }
+    /* already completed */
+    if (ga_ihdl_array[index].active == 0) return(retval);
     ga_armcihdl_t* next = ga_ihdl_array[index].ahandle;
     /* Loop over linked list and complete all remaining armci non-blocking calls */
     while(next) {
-- 
2.43.0


From 05beb70557daaf2d5307347468e622866467419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 30/48] fix: disk arrays: transposed transfers, request
 probing, unlimited count, reopening and node mapping

Buffers of a transposed section transfer were used or reused before the
non-blocking global array transfer had finished; DRA_Probe on a completed
request misbehaved and a move it started was never waited for; buffers that
were not active were returned for a request; DRA_Init with the default number
of arrays allocated a negative amount; a failed open leaked the handle; the
I/O process of nodes with different numbers of processes was wrong; the
array name read back after reopening ended in a newline, and an unreadable
meta-data file counted as read.
---
 pario/dra/buffers.c     |  2 +-
 pario/dra/disk.arrays.c | 51 ++++++++++++++++++++++++++---------------
 pario/dra/disk.param.c  | 39 ++++++++++++++++---------------
 3 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/pario/dra/buffers.c b/pario/dra/buffers.c
index d43e676..3b415e1 100644
--- a/pario/dra/buffers.c
+++ b/pario/dra/buffers.c
@@ -183,7 +183,7 @@ int get_bufs_of_call_id(
     int i, count = 0;
 
     for (i = 0; i < ctxt->nbuf; i++)
-        if (ctxt->buf[i].call_id == call_id) {
+        if (ctxt->buf[i].call_id == call_id && ctxt->buf[i].active == 1) {
             bufs[count++] = ctxt->buf[i].buffer;
         }
     *n_buf = count;
diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index 947d8a9..0270116 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -362,7 +362,7 @@ int Dra_num_serv=DRA_NUM_IOPROCS;
 }
 
 
-char dummy_fname[DRA_MAX_FNAME];
+char dummy_fname[DRA_MAX_FNAME+32]; /* room for the suffix of component files */
 
 /*****************************************************************************/
 
@@ -430,7 +430,7 @@ Integer dai_io_nodeid(Integer d_a)
 {
     Integer handle = d_a+DRA_OFFSET;
     Integer me = pnga_nodeid();
-    Integer pid, id, nid, nnodes,nprocs;
+    Integer pid, id, nid, nnodes;
     Integer nodeid = pnga_cluster_nodeid();
     Integer zero = 0;
 
@@ -446,11 +446,16 @@ Integer dai_io_nodeid(Integer d_a)
             if (me == 0) return me;
             else return -1;
         } else {
+            /* number the processes so that the first ones of all nodes come
+             * first, followed by the second ones and so on; nodes may have
+             * different numbers of processes */
             nnodes = pnga_cluster_nnodes();
-            nprocs = pnga_cluster_nprocs(nodeid);
-            pid = me % nprocs;
-            nid = (me - pid)/nprocs;
-            id = pid * nnodes + nid;
+            for (pid = 0; pnga_cluster_procid(nodeid, pid) != me; pid++);
+            id = 0;
+            for (nid = 0; nid < nnodes; nid++) {
+                id += PARIO_MIN(pid, pnga_cluster_nprocs(nid));
+                if (nid < nodeid && pid < pnga_cluster_nprocs(nid)) id++;
+            }
             if (id < DRA[handle].ioprocs) return id;
             else return -1;
         }
@@ -547,7 +552,7 @@ Integer FATR dra_init_(
 
     Dra_num_serv = drai_get_num_serv();
 
-    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)*max_arrays);
+    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)_max_disk_array);
     if(!DRA) dai_error("dra_init: memory alocation failed\n",0);
     for(i=0; i<_max_disk_array ; i++)DRA[i].actv=0;
 
@@ -894,7 +899,10 @@ Integer drai_open(char *filename, Integer *mode, Integer *d_a)
     /*translate DRA mode into ELIO mode*/
     emode = dai_elio_mode((int)*mode);
 
-    if(dai_read_param(DRA[handle].fname, *d_a))return((Integer)-1);
+    if(dai_read_param(DRA[handle].fname, *d_a)) {
+        dai_release_handle(d_a);
+        return((Integer)-1);
+    }
 
     DRA[handle].indep = dai_file_config(filename); /*check file configuration*/
 
@@ -1386,6 +1394,8 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
             for (i=0; i<ndim; i++) ldg[i] = gs_chunk.hi[i] - gs_chunk.lo[i] + 1;
             /* copy data from global array to temporary buffer */
             nga_get_sectM(gs_chunk, base_addr, ldg, ga_movhdl); 
+            /* the data are used right away */
+            if (ga_movhdl != NULL) pnga_nbwait(ga_movhdl);
             for (i=0; i<nelem1; i++ ) {
                 /* find indices of elements in MA buffer */
                 if (ndim > 1) {
@@ -1494,6 +1504,8 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
                 }
             }
             nga_put_sectM(gs_chunk, base_addr, ldt, ga_movhdl); 
+            /* the temporary array is about to be released */
+            if (ga_movhdl != NULL) pnga_nbwait(ga_movhdl);
         }
         MA_pop_stack(vhandle);
     } else {
@@ -1617,7 +1629,7 @@ Integer FATR dra_probe_(
 
     if(*request == DRA_REQ_INVALID || Requests[*request].num_pending ==0) {
         *status = ELIO_DONE;
-        ret = ELIO_OK;
+        return ((Integer) ret);
     }
 
     call_id = Requests[*request].call_id;  
@@ -1668,10 +1680,11 @@ Integer FATR dra_probe_(
                     k = 0;
                 else { /* disk read done, initiate/test ga move */
                     /* callback=OFF means ga move done/being done */
-                    if (bi->callback == OFF && pnga_nbtest(ga_movhdl) == 0)
-                        k = 0;
-                    else if (bi->callback == OFF && pnga_nbtest(ga_movhdl) ==1) {
-                        ga_dra_free_buf(&buf_ctxt, bufs[i]);
+                    if (bi->callback == OFF) {
+                        if (pnga_nbtest(ga_movhdl) == 0)
+                            k = 0;
+                        else
+                            ga_dra_free_buf(&buf_ctxt, bufs[i]);
                     }
                     else if (bi->callback == ON) {/* need to call callback */
                         k = 0;
@@ -2622,11 +2635,8 @@ cases:
         }
         /* check to see if there is only one unaligned section covering this
            dimension */
-        if (check == 1) {
-            if (cover[u-1][2*idir+1] >= ds_a.hi[idir]) check = 0;
-        } else {
-            check = 1;
-        } 
+        if (off_low[idir] != 0 &&
+            cover[u-1][2*idir+1] >= ds_a.hi[idir]) check = 0;
         /* handle cover over upper end of patch */
         if (off_hi[idir] != 0 && check == 1) {
             for (i=0, j=0; i<ndim-1; i++) {
@@ -2817,7 +2827,10 @@ void wait_buf(char *buf)
                 pnga_nbwait(ga_movhdl);
             else {
                 elio_wait(io_req);
-                dai_exec_callback(buf, WAIT);
+                if (bi->callback == OFF) /* move already started by a probe */
+                    pnga_nbwait(ga_movhdl);
+                else
+                    dai_exec_callback(buf, WAIT);
             }
             break;
 
diff --git a/pario/dra/disk.param.c b/pario/dra/disk.param.c
index 2a245d5..35afab2 100644
--- a/pario/dra/disk.param.c
+++ b/pario/dra/disk.param.c
@@ -99,32 +99,35 @@ int dai_read_param(char* filename,Integer d_a)
 
         if((fd=fopen(param_filename,"r"))){
 
-            if(!fscanf(fd,"%ld", &input))  dai_error("dai_read_param:ndim",0);
+            if(fscanf(fd,"%ld",&input) != 1)  dai_error("dai_read_param:ndim",0);
             DRA[dra_hndl].ndim = (Integer) input;
             ndim = (Integer) input;
             for (i=0; i<ndim; i++) {
-                if(!fscanf(fd,"%ld", &input))  dai_error("dai_read_param:dims",i);
+                if(fscanf(fd,"%ld",&input) != 1)  dai_error("dai_read_param:dims",i);
                 DRA[dra_hndl].dims[i] = (Integer) input;
             }
 
-            if(!fscanf(fd,"%ld",&input))   dai_error("dai_read_param:type",0);
+            if(fscanf(fd,"%ld",&input) != 1)   dai_error("dai_read_param:type",0);
             DRA[dra_hndl].type = (int) input;
-            if(!fscanf(fd,"%ld",&input))   dai_error("dai_read_param:layout",0);
+            if(fscanf(fd,"%ld",&input) != 1)   dai_error("dai_read_param:layout",0);
             DRA[dra_hndl].layout = (Integer) input;
 
             for (i=0; i<ndim; i++) {
-                if(!fscanf(fd,"%ld",&input))   dai_error("dai_read_param:chunk",i);
+                if(fscanf(fd,"%ld",&input) != 1)   dai_error("dai_read_param:chunk",i);
                 DRA[dra_hndl].chunk[i] = (Integer) input;
             }
 
-            if(!fscanf(fd,"%ld",&input))   dai_error("dai_read_param:numfiles",0);
+            if(fscanf(fd,"%ld",&input) != 1)   dai_error("dai_read_param:numfiles",0);
             DRA[dra_hndl].numfiles = (Integer) input;
 
-            if(!fscanf(fd,"%ld",&input))   dai_error("dai_read_param:ioprocs",0);
+            if(fscanf(fd,"%ld",&input) != 1)   dai_error("dai_read_param:ioprocs",0);
             DRA[dra_hndl].ioprocs = (Integer) input;
 
-            fgets(dummy,HDLEN,fd); /*advance to next line*/
-            if(!fgets(DRA[dra_hndl].name,DRA_MAX_NAME,fd))dai_error("dai_read_param:name",0);
+            if(!fgets(dummy,HDLEN,fd)) /*advance to next line*/
+                dai_error("dai_read_param:name",0);
+            if(!fgets(DRA[dra_hndl].name,DRA_MAX_NAME+2,fd))dai_error("dai_read_param:name",0);
+            /* the newline that ends the record is not part of the name */
+            DRA[dra_hndl].name[strcspn(DRA[dra_hndl].name,"\n")] = '\0';
 
             if(fclose(fd))dai_error("dai_read_param: fclose failed",0);
         }else rc = -1;
@@ -168,30 +171,30 @@ void dai_write_param(char* filename, Integer d_a)
         if(! (fd = fopen(param_filename,"w")) ) {
             char message[MAX_HD_NAME_LEN*2];
             strcpy(message,"dai_write_param:open failed :: ");
-            strcpy(message,param_filename);
+            strcat(message,param_filename);
             dai_error(message,0);
         }
 
-        if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].ndim)) 
+        if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].ndim)) 
             dai_error("dai_write_param:ndim",0);
         for (i=0; i<ndim; i++) {
-            if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].dims[i])) 
+            if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].dims[i])) 
                 dai_error("dai_write_param:dims",i);
         }
-        if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].type)) 
+        if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].type)) 
             dai_error("dai_write_param:type",0);
-        if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].layout))
+        if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].layout))
             dai_error("dai_write_param:layout",0);
         for (i=0; i<ndim; i++) {
-            if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].chunk[i]))
+            if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].chunk[i]))
                 dai_error("dai_write_param:chunk",i);
         }
-        if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].numfiles)) 
+        if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].numfiles)) 
             dai_error("dai_write_param:numfiles",0);
-        if(!fprintf(fd,"%ld ",(long)DRA[dra_hndl].ioprocs)) 
+        if(0 > fprintf(fd,"%ld ",(long)DRA[dra_hndl].ioprocs)) 
             dai_error("dai_write_param:ioprocs",0);
 
-        if(!fprintf(fd,"\n%s\n",DRA[dra_hndl].name))
+        if(0 > fprintf(fd,"\n%s\n",DRA[dra_hndl].name))
             dai_error("dai_write_param:name",0);
 
         if(fclose(fd))dai_error("dai_write_param: fclose failed",0);
-- 
2.43.0


From 4de501fc3c66fa98624560c6e84d7b041a6f09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 31/48] fix: raw ARMCI transfers: contiguity test, vector
 accumulate and wait-by-process on mpi3, non-blocking register values, node
 names

The contiguity test of strided transfers divided by zero strides and took
strides that are not multiples of each other for contiguous data. The vector
accumulate of the mpi3 runtime updated one element per segment. A non-blocking
put of a register value sent from a dead stack frame. ARMCI_WaitProc aborted on
mpi3 and waiting for a recycled handle printed errors. Node names were compared
by prefix.
---
 comex/src-armci/armci.c | 113 +++++------------
 comex/src-mpi3/comex.c  | 261 ++++++++++++----------------------------
 2 files changed, 109 insertions(+), 265 deletions(-)

diff --git a/comex/src-armci/armci.c b/comex/src-armci/armci.c
index 5f7d4b4..c521505 100644
--- a/comex/src-armci/armci.c
+++ b/comex/src-armci/armci.c
@@ -3,7 +3,9 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "armci.h"
@@ -51,8 +53,7 @@ void armci_init_domains(MPI_Comm comm)
   prev_ptr = namebuf;
   buf_ptr = namebuf+MPI_MAX_PROCESSOR_NAME;
   for (i=1; i<size; i++) {
-    namelen = strlen(buf_ptr);
-    if (strncmp(prev_ptr,buf_ptr,namelen) != 0) {
+    if (strncmp(prev_ptr,buf_ptr,MPI_MAX_PROCESSOR_NAME) != 0) {
       ncnt++;
       nodesize[ncnt]=0;
     }
@@ -106,91 +107,25 @@ void armci_init_domains(MPI_Comm comm)
  * all information from the stride and count arrays. The old implementation did
  * not identify all cases of contiguous data transfers.
  *
- * src_stride: physical dimensions of source buffer
- * dst_stride: physical dimensions of destination buffer
+ * src_stride: distance in bytes between successive blocks in source buffer
+ * dst_stride: distance in bytes between successive blocks in destination buffer
  * count: number of elements being moved in each dimension
  * n_stride: number of strides (array dimension minus one)
  */
 int armci_check_contiguous(int *src_stride, int *dst_stride,
     int *count, int n_stride)
 {
-#if 1
-  /* This is code from the merge between CMX and the current develop branch
-   * (2018/7/5) */
   int i;
-  int ret = 1;
-  int stridelen = 1;
-  int gap = 0;
-  int src_ld[7], dst_ld[7];
-  /**
-   * Calculate physical dimensions of buffers from stride arrays
-   */
-  src_ld[0] = src_stride[0];
-  dst_ld[0] = dst_stride[0];
-  for (i=1; i<n_stride; i++) {
-    src_ld[i] = src_stride[i]/src_stride[i-1];
-    dst_ld[i] = dst_stride[i]/dst_stride[i-1];
+  long length = count[0];
+  for (i=1; i<=n_stride; i++) {
+    /* the stride of a dimension of extent 1 is never used */
+    if (count[i] == 1) continue;
+    if (src_stride[i-1] != length || dst_stride[i-1] != length) return 0;
+    length *= count[i];
+    /* the length of a contiguous transfer must fit an int */
+    if (length > INT_MAX) return 0;
   }
-  /* NOTE: The count array contains the length of the final dimension and can
-   * be used to evaluate some corner cases
-   */
-  for (i=0; i<n_stride; i++) {
-    /* check for overflow */
-    int tmp = stridelen * count[i];
-    if (stridelen != 0 && tmp / stridelen != count[i]) {
-      ret = 0;
-      break;
-    }
-    stridelen = tmp;
-    if ((count[i] < src_ld[i] || count[i] < dst_ld[i])
-        && gap == 1) {
-      /* Data is definitely strided in memory */
-      ret = 0;
-      break;
-    } else if ((count[i] < src_ld[i] || count[i] < dst_ld[i]) &&
-        gap == 0) {
-      /* First dimension that doesn't match physical dimension */
-      gap = 1;
-    } else if (count[i] != 1 && gap == 1) {
-      /* Found a mismatch between requested block and physical dimensions
-       * indicating a possible stride in memory
-       * */
-      ret = 0;
-      break;
-    }
-  }
-  /**
-   * Everything looks good up to this point but need to verify that last
-   * dimension is 1 if a mismatch between requested block and physical
-   * array dimensions has been found previously
-   */
-  if (gap == 1 && ret == 1 && n_stride > 0) {
-    if (count[n_stride] != 1) ret = 0;
-  }
-  return ret;
-#else
-  int i;
-  int ret = 1;
-  int stridelen = 1;
-  /* NOTE: The count array contains the length of the final dimension and could
-   * be used to evaluate some corner cases that are not picked up by this
-   * algorithm
-   */ 
-  for (i=0; i<n_stride; i++) {
-    /* check for overflow */
-    int tmp = stridelen * count[i];
-    if (stridelen != 0 && tmp / stridelen != count[i]) {
-      ret = 0;
-      break;
-    }
-    stridelen = tmp;
-    if (stridelen < src_stride[i] || stridelen < dst_stride[i]) {
-      ret = 0;
-      break;
-    }
-  }
-  return ret;
-#endif
+  return 1;
 }
 
 /**
@@ -649,27 +584,39 @@ int PARMCI_NbPutV(armci_giov_t *darr, int len, int proc, armci_hdl_t *nb_handle)
 }
 
 
+/* the value lives in the frame of the caller, so the transfer has to be
+ * finished with it before the call returns */
+static int armci_nbput_value(void *src, void *dst, int bytes, int proc, armci_hdl_t *nb_handle)
+{
+    int rc;
+    if (!nb_handle) return comex_put(src, dst, bytes, proc, COMEX_GROUP_WORLD);
+    rc = comex_nbput(src, dst, bytes, proc, COMEX_GROUP_WORLD, nb_handle);
+    if (COMEX_SUCCESS != rc) return rc;
+    return comex_wait(nb_handle);
+}
+
+
 int PARMCI_NbPutValueDouble(double src, void *dst, int proc, armci_hdl_t *nb_handle)
 {
-    return comex_nbput(&src, dst, sizeof(double), proc, COMEX_GROUP_WORLD, nb_handle);
+    return armci_nbput_value(&src, dst, sizeof(double), proc, nb_handle);
 }
 
 
 int PARMCI_NbPutValueFloat(float src, void *dst, int proc, armci_hdl_t *nb_handle)
 {
-    return comex_nbput(&src, dst, sizeof(float), proc, COMEX_GROUP_WORLD, nb_handle);
+    return armci_nbput_value(&src, dst, sizeof(float), proc, nb_handle);
 }
 
 
 int PARMCI_NbPutValueInt(int src, void *dst, int proc, armci_hdl_t *nb_handle)
 {
-    return comex_nbput(&src, dst, sizeof(int), proc, COMEX_GROUP_WORLD, nb_handle);
+    return armci_nbput_value(&src, dst, sizeof(int), proc, nb_handle);
 }
 
 
 int PARMCI_NbPutValueLong(long src, void *dst, int proc, armci_hdl_t *nb_handle)
 {
-    return comex_nbput(&src, dst, sizeof(long), proc, COMEX_GROUP_WORLD, nb_handle);
+    return armci_nbput_value(&src, dst, sizeof(long), proc, nb_handle);
 }
 
 
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 5d2efbf..1cbecc3 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -1403,6 +1403,9 @@ void vector_to_struct_dtype(void* src_ptr, void *dst_ptr, comex_giov_t *iov,
   ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"vector_to_struct_dtype:MPI_Type_create_struct");
+  free(blocklengths);
+  free(displacements);
+  free(types);
 #endif
 }
 
@@ -1593,200 +1596,96 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
     void *scale, MPI_Datatype base_type,
     MPI_Datatype *src_type, MPI_Datatype *dst_type)
 {
-  int i, j, size, ierr;
-  int nelems, icnt, ratio;
-  void* src_buf;
+  int i, j, k, size, ierr;
+  int nsegs, icnt, ratio, total;
+  char *src_buf, *pos;
   int *blocklengths;
   MPI_Aint *displacements;
   MPI_Datatype *types;
-  MPI_Aint displ;
   MPI_Type_size(base_type,&size);
-  /* find total number of elements */
-  nelems = 0;
+  ratio = comex_size/size;
+  /* find total number of segments and bytes */
+  nsegs = 0;
+  total = 0;
   for (i=0; i<iov_len; i++) {
-    nelems += iov[i].count;
+    nsegs += iov[i].count;
+    total += iov[i].count*iov[i].bytes;
   }
-  /* create temporary buffers for scaled accumulate values */
-  MPI_Type_size(base_type, &size);
-  ratio = comex_size/size;
-#if DEBUG
-  printf("p[%d] Ratio: %d comex_size: %d size: %d\n",l_state.rank,
-      ratio,comex_size,size);
-#endif
-  src_buf=malloc(nelems*comex_size);
-  if (base_type == MPI_INT) {
-    int *buf = (int*)src_buf;
-    int iscale = *((int*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((int*)(iov[i].src[j]));
-        buf[icnt] *= iscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_LONG) {
-    long *buf = (long*)src_buf;
-    long lscale = *((long*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((long*)(iov[i].src[j]));
-        buf[icnt] *= lscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 1) {
-    float *buf = (float*)src_buf;
-    float fscale = *((float*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((float*)(iov[i].src[j]));
-        buf[icnt] *= fscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 1) {
-    double *buf = (double*)src_buf;
-    double dscale = *((double*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((double*)(iov[i].src[j]));
-        buf[icnt] *= dscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 2) {
-    float *buf = (float*)src_buf;
-    float crscale = *((float*)scale);
-    float ciscale = *((float*)scale+1);
-    float rval, ival;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        rval = *((float*)(iov[i].src[j]));
-        ival = *((float*)(iov[i].src[j])+1);
-        buf[2*icnt] = rval*crscale-ival*ciscale;
-        buf[2*icnt+1] = rval*ciscale+ival*crscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 2) {
-    double *buf = (double*)src_buf;
-    double crscale = *((double*)scale);
-    double ciscale = *((double*)scale+1);
-    double rval, ival;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        rval = *((double*)(iov[i].src[j]));
-        ival = *((double*)(iov[i].src[j])+1);
-        buf[2*icnt] = rval*crscale-ival*ciscale;
-        buf[2*icnt+1] = rval*ciscale+ival*crscale;
-        icnt++;
+  /* pack the scaled values of all segments into a temporary buffer */
+  src_buf = (char*)malloc(total > 0 ? total : 1);
+  pos = src_buf;
+  for (i=0; i<iov_len; i++) {
+    for (j=0; j<iov[i].count; j++) {
+      int n = iov[i].bytes/comex_size;
+      if (base_type == MPI_INT) {
+        int *buf = (int*)pos;
+        int *src = (int*)iov[i].src[j];
+        int iscale = *((int*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*iscale;
+      } else if (base_type == MPI_LONG) {
+        long *buf = (long*)pos;
+        long *src = (long*)iov[i].src[j];
+        long lscale = *((long*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*lscale;
+      } else if (base_type == MPI_FLOAT && ratio == 1) {
+        float *buf = (float*)pos;
+        float *src = (float*)iov[i].src[j];
+        float fscale = *((float*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*fscale;
+      } else if (base_type == MPI_DOUBLE && ratio == 1) {
+        double *buf = (double*)pos;
+        double *src = (double*)iov[i].src[j];
+        double dscale = *((double*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*dscale;
+      } else if (base_type == MPI_FLOAT && ratio == 2) {
+        float *buf = (float*)pos;
+        float *src = (float*)iov[i].src[j];
+        float crscale = *((float*)scale);
+        float ciscale = *((float*)scale+1);
+        for (k=0; k<n; k++) {
+          buf[2*k] = src[2*k]*crscale-src[2*k+1]*ciscale;
+          buf[2*k+1] = src[2*k]*ciscale+src[2*k+1]*crscale;
+        }
+      } else if (base_type == MPI_DOUBLE && ratio == 2) {
+        double *buf = (double*)pos;
+        double *src = (double*)iov[i].src[j];
+        double crscale = *((double*)scale);
+        double ciscale = *((double*)scale+1);
+        for (k=0; k<n; k++) {
+          buf[2*k] = src[2*k]*crscale-src[2*k+1]*ciscale;
+          buf[2*k+1] = src[2*k]*ciscale+src[2*k+1]*crscale;
+        }
       }
+      pos += n*comex_size;
     }
   }
 
   /* allocate buffers to create data types */
-  blocklengths = (int*)malloc(ratio*nelems*sizeof(int));
-  displacements = (MPI_Aint*)malloc(ratio*nelems*sizeof(MPI_Aint));
-  types = (MPI_Datatype*)malloc(ratio*nelems*sizeof(MPI_Datatype));
-  if (base_type == MPI_INT) {
-    int *buf;
-    buf = (int*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_LONG) {
-    long *buf;
-    buf = (long*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 1) {
-    float *buf;
-    buf = (float*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 1) {
-    double *buf;
-    buf = (double*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 2) {
-    float *buf;
-    buf = (float*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+2*icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 2;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 2) {
-    double *buf;
-    buf = (double*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+2*icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 2;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  }
-  ierr =MPI_Type_create_struct(nelems, blocklengths, displacements, types,
+  blocklengths = (int*)malloc((nsegs+1)*sizeof(int));
+  displacements = (MPI_Aint*)malloc((nsegs+1)*sizeof(MPI_Aint));
+  types = (MPI_Datatype*)malloc((nsegs+1)*sizeof(MPI_Datatype));
+  /* the source is the packed buffer */
+  blocklengths[0] = total/size;
+  displacements[0] = 0;
+  types[0] = base_type;
+  ierr = MPI_Type_create_struct(1, blocklengths, displacements, types,
       src_type);
   translate_mpi_error(ierr,"create_vector_buf_and_dtypes:MPI_Type_create_struct");
   icnt = 0;
   for (i=0; i<iov_len; i++) {
     for (j=0; j<iov[i].count; j++) {
-      displ = (MPI_Aint)iov[i].dst[j]-(MPI_Aint)dst_ptr;
-      displacements[icnt] = displ;
+      blocklengths[icnt] = iov[i].bytes/size;
+      displacements[icnt] = (MPI_Aint)iov[i].dst[j]-(MPI_Aint)dst_ptr;
+      types[icnt] = base_type;
       icnt++;
     }
   }
-  ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
+  ierr = MPI_Type_create_struct(nsegs, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"create_vector_buf_and_dtypes:MPI_Type_create_struct");
+  free(blocklengths);
+  free(displacements);
+  free(types);
   return src_buf;
 }
 
@@ -2038,9 +1937,7 @@ int comex_finalize()
 
 int comex_wait_proc(int proc, comex_group_t group)
 {
-    assert(0);
-
-    return COMEX_SUCCESS;
+    return comex_wait_all(group);
 }
 
 
@@ -2051,6 +1948,8 @@ int comex_wait(comex_request_t* hdl)
   return COMEX_SUCCESS;
 #endif
 #ifdef USE_MPI_REQUESTS
+  /* already completed, for example when its slot was needed again */
+  if (nb_list[*hdl]->active == 0) return COMEX_SUCCESS;
 #ifdef USE_MPI_FLUSH_LOCAL
   ierr = MPI_Win_flush_local(nb_list[*hdl]->remote_proc,nb_list[*hdl]->win);
   translate_mpi_error(ierr,"comex_wait:MPI_Win_flush_local");
@@ -2063,9 +1962,6 @@ int comex_wait(comex_request_t* hdl)
   translate_mpi_error(ierr,"comex_wait:MPI_Win_flush_local");
 #endif
 #endif
-  if (nb_list[*hdl]->active == 0) {
-    printf("p[%d] comex_wait Error: handle not active\n",l_state.rank);
-  }
   nb_list[*hdl]->active = 0;
   free(nb_list[*hdl]->acc_buf);
   nb_list[*hdl]->acc_buf = NULL;
@@ -2096,11 +1992,12 @@ int comex_test(comex_request_t* hdl, int *status)
     int flag;
     int ierr;
     MPI_Status stat;
-    ierr = MPI_Test(&(nb_list[*hdl]->request),&flag,&stat);
-    translate_mpi_error(ierr,"comex_test:MPI_Test");
     if (nb_list[*hdl]->active == 0) {
-      printf("comex_test Error: handle not active\n");
+      *status = 0;
+      return COMEX_SUCCESS;
     }
+    ierr = MPI_Test(&(nb_list[*hdl]->request),&flag,&stat);
+    translate_mpi_error(ierr,"comex_test:MPI_Test");
     if (flag) {
       /* operation is complete */
       *status = 0;
-- 
2.43.0


From b57ae161ee947d073f871fd9ae303d42ce9e8488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 32/48] fix: termination with group arrays in different handle
 order, memory limit changes, GA_Freemem accounting, ghost information of
 refused arrays, leaks in mpi-mt strided puts and mpi3 allocation

---
 comex/src-mpi-mt/comex.c |  2 ++
 comex/src-mpi3/comex.c   |  8 ++++++--
 global/src/base.c        | 39 +++++++++++++++++++++++++++++++--------
 global/src/base.h        |  1 +
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 17049bf..b520931 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -1752,6 +1752,8 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     if ((unsigned)header->length > COMEX_STATIC_BUFFER_SIZE) {
         free(packed_buffer);
     }
+
+    free(stride);
 }
 
 
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 1cbecc3..a93280e 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -3177,7 +3177,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
     int i, ierr;
     int comm_rank = -1;
     int comm_size = -1;
-    int tsize;
+    size_t tsize;
     reg_entry_t src;
 
     igroup = comex_get_igroup_from_group(group);
@@ -3248,6 +3248,8 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
     }
     comex_igroup_add_win(group,reg_entries[comm_rank].win);
 
+    free(reg_entries);
+
     comex_wait_all(group);
     /* MPI_Win_fence(0,reg_entries[comm_rank].win); */
     MPI_Barrier(comm);
@@ -3268,7 +3270,7 @@ int comex_malloc_mem_dev(void *ptrs[], size_t size, comex_group_t group,
     int i, ierr;
     int comm_rank = -1;
     int comm_size = -1;
-    int tsize;
+    size_t tsize;
     reg_entry_t src;
 
     /* This will become more complicated */
@@ -3350,6 +3352,8 @@ int comex_malloc_mem_dev(void *ptrs[], size_t size, comex_group_t group,
     }
     comex_igroup_add_win(group,reg_entries[comm_rank].win);
 
+    free(reg_entries);
+
     comex_wait_all(group);
     /* MPI_Win_fence(0,reg_entries[comm_rank].win); */
     MPI_Barrier(comm);
diff --git a/global/src/base.c b/global/src/base.c
index ef734f7..87af6b3 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -644,10 +644,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   if(GA_memory_limited){
 
     /* if we had the limit set we need to adjust the amount available */
-    if (mem_limit>=0)
+    if (mem_limit>=0) {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    } else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
@@ -2740,6 +2741,7 @@ logical pnga_allocate(Integer g_a)
   GAstat.numcre ++;
 
   GA[ga_handle].actv = 1;
+  GA[ga_handle].crenum = GAstat.numcre;
   /* If only one node is being used and array is mirrored,
    * set proc list to world group */
   if (pnga_cluster_nnodes() == 1 && GA[ga_handle].p_handle == 0) {
@@ -2818,7 +2820,7 @@ logical pnga_allocate(Integer g_a)
 
   if (GA[ga_handle].distr_type == REGULAR) {
     /* Finish setting up information for ghost cell updates */
-    if (GA[ga_handle].ghosts == 1) {
+    if (status && GA[ga_handle].ghosts == 1) {
       if (!pnga_set_ghost_info(g_a))
         pnga_error("Could not allocate update information for ghost cells",0);
     }
@@ -3059,6 +3061,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
   GAstat.numcre ++;
 
   GA[ga_handle].actv = 1;
+  GA[ga_handle].crenum = GAstat.numcre;
   /* If only one node is being used and array is mirrored,
    * set proc list to world group */
   if (pnga_cluster_nnodes() == 1 && GA[ga_handle].p_handle == 0) {
@@ -3126,7 +3129,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
 
   if (GA[ga_handle].distr_type == REGULAR) {
     /* Finish setting up information for ghost cell updates */
-    if (GA[ga_handle].ghosts == 1) {
+    if (status && GA[ga_handle].ghosts == 1) {
       if (!pnga_set_ghost_info(g_a))
         pnga_error("Could not allocate update information for ghost cells",0);
     }
@@ -3653,6 +3656,7 @@ void GA_Freemem(void *ptr)
 int extra = sizeof(getmem_t)+GAnproc*sizeof(char*); 
 getmem_t *info = (getmem_t *)((char*)ptr - extra);
 char **ptr_arr = (char**)(info+1);
+C_Long size = (C_Long)info->size; /* info goes away with the memory */
 
 #ifndef AVOID_MA_STORAGE
     if(ARMCI_Uses_shm()){
@@ -3665,7 +3669,7 @@ char **ptr_arr = (char**)(info+1);
     }
 #endif
 
-    if(GA_memory_limited) GA_total_memory += info->size;
+    if(GA_memory_limited) GA_total_memory += size;
 }
 
 /**
@@ -3775,6 +3779,7 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   save_ptr = GA[ga_handle].ptr;
   GA[ga_handle] = GA[GA_OFFSET + g_a]; /* <--- shallow copy */
   strcpy(GA[ga_handle].name, array_name);
+  GA[ga_handle].crenum = GAstat.numcre;
   GA[ga_handle].ptr = save_ptr;
   GA[ga_handle].distr_type = GA[GA_OFFSET + g_a].distr_type;
   maplen = calc_maplen(GA_OFFSET + g_a);
@@ -3925,6 +3930,7 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       save_ptr = GA[ga_handle].ptr;
       GA[ga_handle] = GA[GA_OFFSET + g_a];
       strcpy(GA[ga_handle].name, array_name);
+      GA[ga_handle].crenum = GAstat.numcre;
       GA[ga_handle].ptr = save_ptr;
       if (maplen > 0) {
         GA[ga_handle].mapc = (C_Integer*)malloc((maplen+1)*sizeof(C_Integer*));
@@ -4160,7 +4166,7 @@ logical pnga_deallocate(Integer g_a)
 void pnga_terminate() 
 {
     //GA_Internal_Threadsafe_Lock();
-Integer i, handle;
+Integer i, j, nact, handle, *active;
 
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
     if(!GAinitialized)
@@ -4173,9 +4179,26 @@ Integer i, handle;
 #ifdef PROFILE_OLD 
     ga_profile_terminate();
 #endif
+    /* destroy arrays in the order they were created. Handles can be assigned
+     * differently on processes that belong to different groups */
+    nact = 0;
+    for (i=0;i<_max_global_array;i++) if(GA[i].actv) nact++;
+    if (nact > 0) {
+          active = (Integer*)malloc(nact*sizeof(Integer));
+          nact = 0;
+          for (i=0;i<_max_global_array;i++){
+                if(!GA[i].actv) continue;
+                for (j=nact++; j>0 && GA[active[j-1]].crenum > GA[i].crenum; j--)
+                      active[j] = active[j-1];
+                active[j] = i;
+          }
+          for (i=0;i<nact;i++){
+                handle = active[i] - GA_OFFSET ;
+                pnga_destroy(handle);
+          }
+          free(active);
+    }
     for (i=0;i<_max_global_array;i++){
-          handle = i - GA_OFFSET ;
-          if(GA[i].actv) pnga_destroy(handle);
           if(GA[i].ptr) free(GA[i].ptr);
           if(GA[i].mapc) free(GA[i].mapc);
     }
diff --git a/global/src/base.h b/global/src/base.h
index d59cebb..50c988d 100644
--- a/global/src/base.h
+++ b/global/src/base.h
@@ -51,6 +51,7 @@ typedef struct {
        int  type;                   /* data type in array                   */
        int  actv;                   /* activity status, GA is allocated     */
        int  actv_handle;            /* handle is created                    */
+       long crenum;                 /* order of creation on this process    */
        C_Long   size;               /* size of local data in bytes          */
        int  elemsize;               /* sizeof(datatype)                     */
        int  ghosts;                 /* flag indicating presence of ghosts   */
-- 
2.43.0


From 792d5011cfd3945c51412ab1ca1c2a6570815490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 33/48] fix: sparse arrays: non-square and nearly empty
 matrices, group arrays, element types, products, conversions, export and
 sketching

---
 global/src/sketch.c       |   8 +-
 global/src/sparse.array.c | 613 +++++++++++++++++++-------------------
 2 files changed, 310 insertions(+), 311 deletions(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 79dd477..aa21b44 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -127,7 +127,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   map = (Integer*)malloc((nprocs+1)*sizeof(Integer));
   for (i=0; i<nprocs; i++) size[i] = 0;
   size[me] = nrows;
-  if (idx_size == 4) {
+  if (sizeof(Integer) == 4) {
     pnga_pgroup_gop(SPA[hdl].grp,C_INT,size,nprocs,"+");
   } else {
     pnga_pgroup_gop(SPA[hdl].grp,C_LONG,size,nprocs,"+");
@@ -253,7 +253,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           if (idx_size == 4) {
             int *iptr;
             int *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
@@ -294,7 +294,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           } else {
             int64_t *iptr;
             int64_t *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
@@ -368,6 +368,8 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   pnga_pgroup_sync(SPA[hdl].grp);
 
   /* free up arrays */
+  free(size);
+  free(map);
   free(kbuf);
   free(klabels);
   free(kweights);
diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9091eb4..8082d3e 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -105,13 +105,9 @@ void sai_init_sparse_arrays()
 void sai_terminate_sparse_arrays()
 {
   Integer i;
+  /* the global arrays that hold the data of a sparse array are destroyed
+   * together with all other global arrays in pnga_terminate */
   for (i=0; i<MAX_ARRAYS; i++) {
-    Integer ga = SPA[i].g_data + GA_OFFSET;
-    if (GA[ga].actv==1) pnga_destroy(SPA[i].g_data);
-    ga = SPA[i].g_i + GA_OFFSET;
-    if (GA[ga].actv==1) pnga_destroy(SPA[i].g_i);
-    ga = SPA[i].g_j + GA_OFFSET;
-    if (GA[ga].actv==1) pnga_destroy(SPA[i].g_j);
     if (SPA[i].blkidx) free(SPA[i].blkidx);
     if (SPA[i].blksize) free(SPA[i].blksize);
     if (SPA[i].offset) free(SPA[i].offset);
@@ -123,22 +119,16 @@ void sai_terminate_sparse_arrays()
 }
 
 /**
- * Create a new sparse array
+ * Internal function to set up the data structures of a new sparse array
  * @param idim,jdim I (row) and J (column) dimensions of sparse array
  * @param type type of data stored in sparse array
  * @param size size of indices stored in sparse array
+ * @param grp process group on which the array is created
  */
-#if HAVE_SYS_WEAK_ALIAS_PRAGMA
-#   pragma weak wnga_sprs_array_create =  pnga_sprs_array_create
-#endif
-Integer pnga_sprs_array_create(Integer idim, Integer jdim, Integer type, Integer size)
+static Integer sai_create(Integer idim, Integer jdim, Integer type,
+    Integer size, Integer grp)
 {
-  Integer i, hdl, s_a;
-  int local_sync_begin,local_sync_end;
-
-  local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
-  _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-  if (local_sync_begin) pnga_pgroup_sync(pnga_pgroup_get_default());
+  Integer i;
   GAvalidtypeM(pnga_type_f2c((int)type));
   if (idim <= 0 || jdim <= 0)
     pnga_error("(ga_sprs_array_create) Invalid array dimenensions",0);
@@ -153,15 +143,100 @@ Integer pnga_sprs_array_create(Integer idim, Integer jdim, Integer type, Integer
       SPA[i].val = malloc(INIT_BUF_SIZE*SPA[i].size);
       SPA[i].nval = 0;
       SPA[i].maxval = INIT_BUF_SIZE;
+      SPA[i].nblocks = 0;
       SPA[i].idim = idim;
       SPA[i].jdim = jdim;
-      SPA[i].grp = pnga_pgroup_get_default();
-      SPA[i].nprocs = pnga_pgroup_nnodes(SPA[i].grp);
-      hdl = i;
-      s_a = hdl - GA_OFFSET;
-      break;
+      SPA[i].grp = grp;
+      SPA[i].nprocs = pnga_pgroup_nnodes(grp);
+      return i - GA_OFFSET;
     }
   }
+  pnga_error("(ga_sprs_array_create) Too many sparse arrays",MAX_ARRAYS);
+  return 0;
+}
+
+/**
+ * Internal function to set the distribution of one of the 1D arrays that hold
+ * the data of a sparse array. The array has at least one element per process
+ * so that it can be created if there are only a few (or no) non-zero values.
+ * The additional elements at the end of the array are not used.
+ * @param g_a handle of array
+ * @param type type of array
+ * @param grp process group
+ * @param size number of elements used by each process
+ */
+static logical sai_allocate(Integer g_a, Integer type, Integer grp,
+    Integer *size)
+{
+  Integer nproc = pnga_pgroup_nnodes(grp);
+  Integer *map = (Integer*)malloc(nproc*sizeof(Integer));
+  Integer i, total, one = 1;
+  logical ret;
+  total = 0;
+  for (i=0; i<nproc; i++) {
+    map[i] = total+1;
+    total += size[i];
+  }
+  if (total < nproc) total = nproc;
+  pnga_set_data(g_a,one,&total,type);
+  pnga_set_pgroup(g_a,grp);
+  pnga_set_irreg_distr(g_a,map,&nproc);
+  ret = pnga_allocate(g_a);
+  free(map);
+  return ret;
+}
+
+/**
+ * Internal function to copy the locally held data between two arrays that
+ * have the same distribution
+ */
+static void sai_copy_local(Integer g_a, Integer g_b, Integer me)
+{
+  Integer lo[3], hi[3], ld[3];
+  Integer i, hdl = GA_OFFSET + g_a;
+  Integer nelem = 1;
+  void *aptr, *bptr;
+  pnga_distribution(g_a,me,lo,hi);
+  for (i=0; i<GA[hdl].ndim; i++) {
+    if (hi[i] < lo[i]) return;
+    nelem *= hi[i]-lo[i]+1;
+  }
+  pnga_access_ptr(g_a,lo,hi,&aptr,ld);
+  pnga_access_ptr(g_b,lo,hi,&bptr,ld);
+  memcpy(bptr,aptr,(size_t)(nelem*GA[hdl].elemsize));
+  pnga_release(g_a,lo,hi);
+  pnga_release_update(g_b,lo,hi);
+}
+
+/**
+ * Internal function to find the (zero-based) limits of one of the blocks into
+ * which a dimension is divided
+ */
+static void sai_limits(Integer dim, Integer nproc, Integer iproc,
+    Integer *lo, Integer *hi)
+{
+  *lo = (iproc*dim+nproc-1)/nproc;
+  *hi = ((iproc+1)*dim+nproc-1)/nproc-1;
+}
+
+/**
+ * Create a new sparse array
+ * @param idim,jdim I (row) and J (column) dimensions of sparse array
+ * @param type type of data stored in sparse array
+ * @param size size of indices stored in sparse array
+ */
+#if HAVE_SYS_WEAK_ALIAS_PRAGMA
+#   pragma weak wnga_sprs_array_create =  pnga_sprs_array_create
+#endif
+Integer pnga_sprs_array_create(Integer idim, Integer jdim, Integer type, Integer size)
+{
+  Integer s_a;
+  int local_sync_begin,local_sync_end;
+
+  local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
+  _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
+  if (local_sync_begin) pnga_pgroup_sync(pnga_pgroup_get_default());
+  s_a = sai_create(idim, jdim, type, size, pnga_pgroup_get_default());
   if (local_sync_end) pnga_pgroup_sync(pnga_pgroup_get_default());
   return s_a;
 }
@@ -286,7 +361,6 @@ logical pnga_sprs_array_assemble(Integer s_a)
   Integer ret = 1;
   int64_t *size;
   Integer *map;
-  Integer totalvals;
   Integer one = 1;
   Integer nrows, irow, idim, jdim;
   char *vals;
@@ -299,7 +373,7 @@ logical pnga_sprs_array_assemble(Integer s_a)
   int64_t *row_info;
   int64_t max_nnz;
   Integer *row_nnz;
-  Integer nnz;
+  Integer *sizes;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -402,39 +476,23 @@ logical pnga_sprs_array_assemble(Integer s_a)
   map = (Integer*)malloc(nproc*sizeof(Integer));
   /* internal indices are unit based so start map at 1 */
   map[0] = 1;
-  totalvals = size[0];
   for (i=1; i<nproc; i++) {
     map[i] = map[i-1] + (Integer)size[i-1];
-    totalvals += (Integer)size[i];
   }
+  sizes = (Integer*)malloc(nproc*sizeof(Integer));
+  for (i=0; i<nproc; i++) sizes[i] = (Integer)size[i];
   free(size);
-  nnz = totalvals;
   SPA[hdl].g_data = pnga_create_handle();
-  pnga_set_pgroup(SPA[hdl].g_data,SPA[hdl].grp);
-  pnga_set_data(SPA[hdl].g_data,one,&totalvals,SPA[hdl].type);
-  pnga_set_irreg_distr(SPA[hdl].g_data,map,&nproc);
-  if (!pnga_allocate(SPA[hdl].g_data)) ret = 0;
+  if (!sai_allocate(SPA[hdl].g_data,SPA[hdl].type,SPA[hdl].grp,sizes)) ret = 0;
   SPA[hdl].g_j = pnga_create_handle();
-  if (longidx) {
-    pnga_set_data(SPA[hdl].g_j,one,&totalvals,C_LONG);
-  } else {
-    pnga_set_data(SPA[hdl].g_j,one,&totalvals,C_INT);
-  }
-  pnga_set_pgroup(SPA[hdl].g_j,SPA[hdl].grp);
-  pnga_set_irreg_distr(SPA[hdl].g_j,map,&nproc);
-  if (!pnga_allocate(SPA[hdl].g_j)) ret = 0;
+  if (!sai_allocate(SPA[hdl].g_j,(longidx?C_LONG:C_INT),SPA[hdl].grp,sizes))
+    ret = 0;
   /* create temporary array using g_i to hold *all* i indices. We will fix it up
    * later to only hold location of first j value
    */
   SPA[hdl].g_i = pnga_create_handle();
-  if (longidx) {
-    pnga_set_data(SPA[hdl].g_i,one,&totalvals,C_LONG);
-  } else {
-    pnga_set_data(SPA[hdl].g_i,one,&totalvals,C_INT);
-  }
-  pnga_set_pgroup(SPA[hdl].g_i,SPA[hdl].grp);
-  pnga_set_irreg_distr(SPA[hdl].g_i,map,&nproc);
-  if (!pnga_allocate(SPA[hdl].g_i)) ret = 0;
+  if (!sai_allocate(SPA[hdl].g_i,(longidx?C_LONG:C_INT),SPA[hdl].grp,sizes))
+    ret = 0;
 
   /* fill up global arrays with data */
   for (i=0; i<nproc; i++) {
@@ -507,9 +565,11 @@ logical pnga_sprs_array_assemble(Integer s_a)
   /* All data has been moved so that each process has a row block of the sparse
    * matrix. Now need to organize data within each process into column blocks.
    * Start by binning data by column index */
-  pnga_distribution(SPA[hdl].g_data,me,&lo,&hi);
   free(list);
-  nvals = hi - lo + 1;
+  nvals = sizes[me];
+  lo = map[me];
+  hi = lo + nvals - 1;
+  SPA[hdl].nval = nvals;
   list = (Integer*)malloc(nvals*sizeof(Integer));
   /* get pointer to list of j indices */
   for (i=0; i<nproc; i++) {
@@ -648,25 +708,11 @@ logical pnga_sprs_array_assemble(Integer s_a)
   offset[me] = (nrows+1)*SPA[hdl].nblocks;
   pnga_pgroup_gop(SPA[hdl].grp,C_LONG,offset,nproc,"+");
   /* Construct new version of g_i */
-  map[0] = 1;
-  nvals = offset[0];
-  for (i=1; i<nproc; i++) {
-    map[i] = map[i-1] + offset[i-1];
-    nvals += offset[i];
-  }
+  for (i=0; i<nproc; i++) sizes[i] = (Integer)offset[i];
   SPA[hdl].g_i = pnga_create_handle();
-  if (longidx) {
-    pnga_set_data(SPA[hdl].g_i,one,&nvals,C_LONG);
-  } else {
-    pnga_set_data(SPA[hdl].g_i,one,&nvals,C_INT);
-  }
-  pnga_set_pgroup(SPA[hdl].g_i,SPA[hdl].grp);
-  pnga_set_irreg_distr(SPA[hdl].g_i,map,&nproc);
-  if (!pnga_allocate(SPA[hdl].g_i)) ret = 0;
+  if (!sai_allocate(SPA[hdl].g_i,(longidx?C_LONG:C_INT),SPA[hdl].grp,sizes))
+    ret = 0;
   pnga_distribution(SPA[hdl].g_i,me,&lo,&hi);
-  /*
-  printf("p[%ld] Distribution on g_i lo: %ld hi: %ld\n",me,lo,hi);
-  */
   if (lo <= hi) {
     if (longidx) {
       pnga_access_ptr(SPA[hdl].g_i,&lo,&hi,&ildx,&ld);
@@ -870,6 +916,7 @@ logical pnga_sprs_array_assemble(Integer s_a)
   free(list);
   free(offset);
   free(map);
+  free(sizes);
 
   SPA[hdl].ready = 1;
   if (local_sync_end) pnga_pgroup_sync(SPA[hdl].grp);
@@ -1154,11 +1201,9 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   int64_t *ilptr = NULL, *jlptr = NULL;
   int *iptr = NULL, *jptr = NULL;
   Integer i, j, iproc, ncols;
-  double one_r = 1.0;
   Integer one = 1;
   Integer adim, vdim, arank, vrank, dims[GA_MAX_DIM];
   Integer atype, vtype;
-  Integer zflag;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -1174,8 +1219,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (adim != SPA[s_hdl].jdim) {
     pnga_error("length of A must equal second dimension of sparse matrix",adim);
   }
-  if (vdim != SPA[s_hdl].jdim) {
-    pnga_error("length of V must equal second dimension of sparse matrix",vdim);
+  if (vdim != SPA[s_hdl].idim) {
+    pnga_error("length of V must equal first dimension of sparse matrix",vdim);
   }
   if (atype != SPA[s_hdl].type || vtype != SPA[s_hdl].type) {
     pnga_error("Data type of sparse matrix and A and V vectors must match",
@@ -1194,12 +1239,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
     _type *_buf = (_type*)malloc((jhi-jlo+1)*sizeof(_type)); \
     _type *_sum = (_type*)vsum;                              \
     _type *_ptr = (_type*)vptr;                              \
-    if (zflag) {                                             \
-      for (i=ilo; i<=ihi; i++) {                             \
-        _sum[i-ilo] = (_type)0;                              \
-      }                                                      \
-      zflag = 0;                                             \
-    }                                                        \
     klo = jlo+1;                                             \
     khi = jhi+1;                                             \
     pnga_get(g_a,&klo,&khi,_buf,&one);                       \
@@ -1219,13 +1258,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
     _type *_sum = (_type*)vsum;                                \
     _type *_ptr = (_type*)vptr;                                \
     _type rbuf,ibuf,rval,ival;                                 \
-    if (zflag) {                                               \
-      for (i=ilo; i<=ihi; i++) {                               \
-        _sum[2*(i-ilo)] = 0.0;                                 \
-        _sum[2*(i-ilo)+1] = 0.0;                               \
-      }                                                        \
-      zflag = 0;                                               \
-    }                                                          \
     klo = jlo+1;                                               \
     khi = jhi+1;                                               \
     pnga_get(g_a,&klo,&khi,_buf,&one);                         \
@@ -1234,22 +1266,18 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
       for (j=0; j<ncols; j++) {                                \
             rbuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)];        \
             ibuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)+1];      \
-            rval = _buf[2*(_iptr[i-ilo]+j)];                   \
-            ival = _buf[2*(_iptr[i-ilo]+j)+1];                 \
-            _sum[2*(i-ilo)] = rval*rbuf-ival*ibuf;             \
-            _sum[2*(i-ilo)+1] = rval*ibuf+ival*rbuf;           \
+            rval = _ptr[2*(_iptr[i-ilo]+j)];                   \
+            ival = _ptr[2*(_iptr[i-ilo]+j)+1];                 \
+            _sum[2*(i-ilo)] += rval*rbuf-ival*ibuf;            \
+            _sum[2*(i-ilo)+1] += rval*ibuf+ival*rbuf;          \
       }                                                        \
     }                                                          \
     free(_buf);                                                \
   }
   
-  /* Make sure product vector is zero */
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_zero(g_v);
   /* multiply sparse matrix by sparse vector */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
-  vsum = (void*)malloc((ihi-ilo+1)*SPA[s_hdl].size);
-  zflag = 1;
+  vsum = calloc(ihi-ilo+1,SPA[s_hdl].size);
   for (iproc=0; iproc<nproc; iproc++) {
     pnga_sprs_array_column_distribution(s_a,iproc,&jlo,&jhi);
     if (idx_size == 4) {
@@ -1298,7 +1326,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (ihi>=ilo) {
     klo = ilo + 1;
     khi = ihi + 1;
-    pnga_acc(g_v,&klo,&khi,vsum,&one,&one_r);
+    /* all contributions to these rows are from this process */
+    pnga_put(g_v,&klo,&khi,vsum,&one);
   }
   if (local_sync_end)  pnga_pgroup_sync(s_grp);
   free(vsum);
@@ -1401,10 +1430,10 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
 
   /* find the total number of nonzero elements on each process */
   nnz = 0;
-  for (iproc = 0; iproc<nprocs; iproc++) {
-    pnga_distribution(SPA[hdl].g_data,iproc,&lo,&hi);
-    if (hi > nnz) nnz = hi;
+  for (iproc = 0; iproc<SPA[hdl].nblocks; iproc++) {
+    nnz += (int64_t)SPA[hdl].blksize[iproc];
   }
+  pnga_pgroup_gop(SPA[hdl].grp,C_LONG,&nnz,1,"+");
 
   /* find low and hi row indices on each processor */
   ilo = (int*)malloc(nprocs*sizeof(int));
@@ -1473,6 +1502,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   if (me == 0) {
     /* open file */
     SPRS = fopen(file,"w");
+    if (SPRS == NULL) pnga_error("(ga_sprs_array_export) cannot open file",0);
     fprintf(SPRS,"\%\%MatrixMarket matrix coordinate real general\n");
     fprintf(SPRS,"%ld %ld %ld\n",SPA[hdl].idim, SPA[hdl].jdim, nnz);
     /* Loop over all row blocks */
@@ -1486,17 +1516,17 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
       pnga_distribution(SPA[hdl].g_data, iproc, &lo, &hi);
       nlen_data = hi-lo+1;
       vptr = malloc(nlen_data*size);
-      pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
+      if (nlen_data > 0) pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
 
       pnga_distribution(SPA[hdl].g_i, iproc, &lo, &hi);
       nlen_i = hi-lo+1;
       iptr = malloc(nlen_i*idx_size);
-      pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
+      if (nlen_i > 0) pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
 
       pnga_distribution(SPA[hdl].g_j, iproc, &lo, &hi);
       nlen_j = hi-lo+1;
       jptr = malloc(nlen_j*idx_size);
-      pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
+      if (nlen_j > 0) pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
 
       nblocks = nblock[iproc];
       /* loop over rows. Not the most efficient way of printing out information
@@ -1530,12 +1560,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
@@ -1558,12 +1588,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
@@ -1582,6 +1612,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   free(ihi);
   free(nblock);
   free(blkmap);
+  free(blkoffset);
   free(blksize);
   pnga_pgroup_sync(SPA[hdl].grp);
 }
@@ -1606,7 +1637,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   Integer iproc;
   Integer one = 1;
   Integer lo, hi;
-  Integer ilo, ihi, jlo, jhi, ncols;
+  Integer ilo, ihi;
   int *iptr, *jptr;
   int64_t *ilptr, *jlptr;
   int idx_size = SPA[hdl].idx_size;
@@ -1641,54 +1672,34 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   pnga_zero(*g_d);
   pnga_distribution(*g_d,me,&lo,&hi);
   pnga_access_ptr(*g_d, &lo, &hi, &diag, &one);
-  /* extract diagonal elements */
+  /* extract diagonal elements. These can be found in more than one column
+   * block if the matrix is not square */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
-  pnga_sprs_array_column_distribution(s_a,me,&jlo,&jhi);
-  if (idx_size == 4) {
-    pnga_sprs_array_access_col_block(s_a,me,&iptr,&jptr,&vptr);
-    for (i=ilo; i<=ihi; i++) {
-      ncols = iptr[i+1-ilo]-iptr[i-ilo];
-      for (j=0; j<ncols; j++) {
-        if (i == jptr[iptr[i-ilo]+j]) {
-          if (SPA[hdl].type == C_INT) {
-            ((int*)diag)[i-ilo] = ((int*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONG) {
-            ((long*)diag)[i-ilo] = ((long*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONGLONG) {
-            ((long long*)diag)[i-ilo] = ((long long*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_FLOAT) {
-            ((float*)diag)[i-ilo] = ((float*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DBL) {
-            ((double*)diag)[i-ilo] = ((double*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_SCPL) {
-            ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[iptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DCPL) {
-            ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[iptr[i-ilo]+j];
-          }
-        }
-      }
+  for (iproc=0; iproc<nproc; iproc++) {
+    if (idx_size == 4) {
+      pnga_sprs_array_access_col_block(s_a,iproc,&iptr,&jptr,&vptr);
+    } else {
+      pnga_sprs_array_access_col_block(s_a,iproc,&ilptr,&jlptr,&vptr);
     }
-  } else {
-    pnga_sprs_array_access_col_block(s_a,me,&ilptr,&jlptr,&vptr);
+    if (vptr == NULL) continue;
     for (i=ilo; i<=ihi; i++) {
-      ncols = ilptr[i+1-ilo]-ilptr[i-ilo];
-      for (j=0; j<ncols; j++) {
-        if (i == jlptr[ilptr[i-ilo]+j]) {
-          if (SPA[hdl].type == C_INT) {
-            ((int*)diag)[i-ilo] = ((int*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONG) {
-            ((long*)diag)[i-ilo] = ((long*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_LONGLONG) {
-            ((long long*)diag)[i-ilo] = ((long long*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_FLOAT) {
-            ((float*)diag)[i-ilo] = ((float*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DBL) {
-            ((double*)diag)[i-ilo] = ((double*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_SCPL) {
-            ((SingleComplex*)diag)[i-ilo] = ((SingleComplex*)vptr)[ilptr[i-ilo]+j];
-          } else if (SPA[hdl].type == C_DCPL) {
-            ((DoubleComplex*)diag)[i-ilo] = ((DoubleComplex*)vptr)[ilptr[i-ilo]+j];
-          }
+      Integer jbeg, jend, jdx;
+      if (idx_size == 4) {
+        jbeg = (Integer)iptr[i-ilo];
+        jend = (Integer)iptr[i+1-ilo];
+      } else {
+        jbeg = (Integer)ilptr[i-ilo];
+        jend = (Integer)ilptr[i+1-ilo];
+      }
+      for (j=jbeg; j<jend; j++) {
+        if (idx_size == 4) {
+          jdx = (Integer)jptr[j];
+        } else {
+          jdx = (Integer)jlptr[j];
+        }
+        if (i == jdx) {
+          memcpy((char*)diag+(i-ilo)*SPA[hdl].size,
+              (char*)vptr+j*SPA[hdl].size,(size_t)SPA[hdl].size);
         }
       }
     }
@@ -1858,7 +1869,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
   if (local_sync_begin) pnga_pgroup_sync(grp);
 
   /* check for basic compatibility */
-  if (SPA[hdl].idim != GA[d_hdl].dims[0]) {
+  if (SPA[hdl].jdim != GA[d_hdl].dims[0]) {
     pnga_error("(pnga_sprs_array_diag_right_multiply) dimensions don't match",0);
   }
   if (type != GA[d_hdl].type) {
@@ -2088,18 +2099,15 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   Integer me = pnga_pgroup_nodeid(grp);
   Integer nproc = pnga_pgroup_nnodes(grp);
   Integer s_dup;
-  Integer lo, hi;
   Integer i;
-  char p_trans[2];
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(grp);
 
   /* create new array with same properties as old array */
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  s_dup = pnga_sprs_array_create(SPA[hdl].idim,SPA[hdl].jdim,SPA[hdl].type,
-      SPA[hdl].idx_size);
+  s_dup = sai_create(SPA[hdl].idim,SPA[hdl].jdim,SPA[hdl].type,
+      SPA[hdl].idx_size,grp);
   /* find handle for new array and duplicate internal GAs */
   new_hdl = GA_OFFSET + s_dup;
   pnga_mask_sync(local_sync_begin,local_sync_end);
@@ -2120,23 +2128,10 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   }
 
   /* Copy data from old array to new array */
-  p_trans[0]='N';
-  p_trans[1]='\0';
-  pnga_distribution(SPA[new_hdl].g_i,me,&lo,&hi);
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_i,&lo,&hi,SPA[new_hdl].g_i,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_j,me,&lo,&hi);
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_j,&lo,&hi,SPA[new_hdl].g_j,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_data,me,&lo,&hi);
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_data,&lo,&hi,SPA[new_hdl].g_data,&lo,&hi);
-  {
-    Integer tlo[3],thi[3];
-    pnga_distribution(SPA[new_hdl].g_blk,me,tlo,thi);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_copy_patch(p_trans,SPA[hdl].g_blk,tlo,thi,SPA[new_hdl].g_blk,tlo,thi);
-  }
+  sai_copy_local(SPA[hdl].g_i,SPA[new_hdl].g_i,me);
+  sai_copy_local(SPA[hdl].g_j,SPA[new_hdl].g_j,me);
+  sai_copy_local(SPA[hdl].g_data,SPA[new_hdl].g_data,me);
+  sai_copy_local(SPA[hdl].g_blk,SPA[new_hdl].g_blk,me);
   /* copy remaining data structures */
   SPA[new_hdl].ilo = SPA[hdl].ilo;
   SPA[new_hdl].ihi = SPA[hdl].ihi;
@@ -2146,6 +2141,9 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   SPA[new_hdl].max_nnz = SPA[hdl].max_nnz;
   SPA[new_hdl].ready = SPA[hdl].ready;
   SPA[new_hdl].grp = SPA[hdl].grp;
+  free(SPA[new_hdl].val);
+  free(SPA[new_hdl].idx);
+  free(SPA[new_hdl].jdx);
   SPA[new_hdl].val = NULL;
   SPA[new_hdl].idx = NULL;
   SPA[new_hdl].jdx = NULL;
@@ -2256,9 +2254,9 @@ logical pnga_sprs_array_get_block(Integer s_a, Integer irow, Integer icol,
     */
   } else {
     /* block has no data */
-    *idx == NULL;
-    *jdx == NULL;
-    *data == NULL;
+    *idx = NULL;
+    *jdx = NULL;
+    *data = NULL;
     ret = 0;
   }
   return ret;
@@ -2381,14 +2379,14 @@ void update_map(Integer **top, Integer **list, Integer **idx, Integer **jdx,
       Integer jcols = _idxb[kdx+1-ilo_b]-_idxb[kdx-ilo_b];            \
       /*_type rval_a = ((_type*)data_a)[2*(kdx-jlo_a)];    */         \
       /*_type ival_a = ((_type*)data_a)[2*(kdx-jlo_a)+1];  */         \
-      _type rval_a = ((_type*)data_a)[2*(idx_a[i-ilo_a]+k)];          \
-      _type ival_a = ((_type*)data_a)[2*(idx_a[i-ilo_a]+k)+1];        \
+      _type rval_a = ((_type*)data_a)[2*(_idxa[i-ilo_a]+k)];          \
+      _type ival_a = ((_type*)data_a)[2*(_idxa[i-ilo_a]+k)+1];        \
       for (j=0; j<jcols; j++) {                                       \
         Integer jj = _jdxb[_idxb[kdx-ilo_b]+j]+1;                     \
         /*_type rval_b = ((_type*)data_b)[2*(jj-jlo_b)];    */        \
         /*_type ival_b = ((_type*)data_b)[2*(jj-jlo_b)+1];  */        \
-        _type rval_b = ((_type*)data_b)[2*(idx_b[kdx-ilo_b]+j)];      \
-        _type ival_b = ((_type*)data_b)[2*(idx_b[kdx-ilo_b]+j)+1];    \
+        _type rval_b = ((_type*)data_b)[2*(_idxb[kdx-ilo_b]+j)];      \
+        _type ival_b = ((_type*)data_b)[2*(_idxb[kdx-ilo_b]+j)+1];    \
         /* Check to see if c_ij already exists */                     \
         Integer ldx = ((i-1)*jdim+jj-1)%bufsize;                      \
         ldx = top[ldx];                                               \
@@ -2471,14 +2469,14 @@ void update_map(Integer **top, Integer **list, Integer **idx, Integer **jdx,
       Integer jcols = _idxb[kdx+1-ilo_b]-_idxb[kdx-ilo_b];            \
       /*_type rval_a = ((_type*)data_a)[2*(kdx-jlo_a)];    */         \
       /*_type ival_a = ((_type*)data_a)[2*(kdx-jlo_a)+1];  */         \
-      _type rval_a = ((_type*)data_a)[2*(idx_a[i-ilo_a]+k)];          \
-      _type ival_a = ((_type*)data_a)[2*(idx_a[i-ilo_a]+k)+1];        \
+      _type rval_a = ((_type*)data_a)[2*(_idxa[i-ilo_a]+k)];          \
+      _type ival_a = ((_type*)data_a)[2*(_idxa[i-ilo_a]+k)+1];        \
       for (j=0; j<jcols; j++) {                                       \
         Integer jj = _jdxb[_idxb[kdx-ilo_b]+j]+1;                     \
         /*_type rval_b = ((_type*)data_b)[2*(jj-jlo_b)];    */        \
         /*_type ival_b = ((_type*)data_b)[2*(jj-jlo_b)+1];  */        \
-        _type rval_b = ((_type*)data_b)[2*(idx_b[kdx-ilo_b]+j)];      \
-        _type ival_b = ((_type*)data_b)[2*(idx_b[kdx-ilo_b]+j)+1];    \
+        _type rval_b = ((_type*)data_b)[2*(_idxb[kdx-ilo_b]+j)];      \
+        _type ival_b = ((_type*)data_b)[2*(_idxb[kdx-ilo_b]+j)+1];    \
         /* Check to see if c_ij already exists */                     \
         Integer ldx = ((i-1)*jdim+jj-1)%bufsize;                      \
         ldx = top[ldx];                                               \
@@ -2609,40 +2607,62 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
    * Multiply block pairs */
   for (l=0; l<nprocs; l++) {
     for (n=0; n<nprocs; n++) {
-      Integer *idx_a, *jdx_a, *idx_b, *jdx_b;
-      void *data_a, *data_b, *iptr, *jptr;
+      void *data_a, *data_b, *iptr_a, *jptr_a, *iptr_b, *jptr_b;
       Integer ilo_a, ihi_a, jlo_a, jhi_a;
       Integer ilo_b, ihi_b, jlo_b, jhi_b;
       Integer ii,jlen;
-      if (!pnga_sprs_array_get_block(s_a, me, l, &iptr, &jptr,
+      if (!pnga_sprs_array_get_block(s_a, me, l, &iptr_a, &jptr_a,
             &data_a, &ilo_a, &ihi_a, &jlo_a, &jhi_a)) continue;
-      idx_a = (Integer*)iptr;
-      jdx_a = (Integer*)jptr;
-      if (!pnga_sprs_array_get_block(s_b, l, n, &iptr, &jptr,
-            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) continue;
-      idx_b = (Integer*)iptr;
-      jdx_b = (Integer*)jptr;
-      if (type == C_INT) {
-        SPRS_REAL_MATMAT_MULTIPLY_M(int,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_LONG) {
-        SPRS_REAL_MATMAT_MULTIPLY_M(long,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_LONGLONG) {
-        SPRS_REAL_MATMAT_MULTIPLY_M(long long,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_FLOAT) {
-        SPRS_REAL_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_DBL) {
-        SPRS_REAL_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_SCPL) {
-        SPRS_COMPLEX_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
-      } else if (type == C_DCPL) {
-        SPRS_COMPLEX_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
+      if (!pnga_sprs_array_get_block(s_b, l, n, &iptr_b, &jptr_b,
+            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) {
+        free(iptr_a);
+        free(jptr_a);
+        free(data_a);
+        continue;
       }
-      if (idx_a != NULL) free(idx_a);
-      if (jdx_a != NULL) free(jdx_a);
-      if (data_a != NULL) free(data_a);
-      if (idx_b != NULL) free(idx_b);
-      if (jdx_b != NULL) free(jdx_b);
-      if (data_b != NULL) free(data_b);
+      if (longidx) {
+        int64_t *idx_a = (int64_t*)iptr_a, *jdx_a = (int64_t*)jptr_a;
+        int64_t *idx_b = (int64_t*)iptr_b, *jdx_b = (int64_t*)jptr_b;
+        if (type == C_INT) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(int,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_LONG) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(long,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_LONGLONG) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(long long,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_FLOAT) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_DBL) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_SCPL) {
+          SPRS_COMPLEX_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_DCPL) {
+          SPRS_COMPLEX_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
+        }
+      } else {
+        int *idx_a = (int*)iptr_a, *jdx_a = (int*)jptr_a;
+        int *idx_b = (int*)iptr_b, *jdx_b = (int*)jptr_b;
+        if (type == C_INT) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(int,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_LONG) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(long,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_LONGLONG) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(long long,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_FLOAT) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_DBL) {
+          SPRS_REAL_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_SCPL) {
+          SPRS_COMPLEX_MATMAT_MULTIPLY_M(float,idx_a,jdx_a,idx_b,jdx_b);
+        } else if (type == C_DCPL) {
+          SPRS_COMPLEX_MATMAT_MULTIPLY_M(double,idx_a,jdx_a,idx_b,jdx_b);
+        }
+      }
+      free(iptr_a);
+      free(jptr_a);
+      free(data_a);
+      free(iptr_b);
+      free(jptr_b);
+      free(data_b);
     }
   }
 
@@ -2676,8 +2696,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
   }
 
   /* create a new sparse array to hold product array */
-  pnga_mask_sync(local_sync_begin,local_sync_end);
-  s_c = pnga_sprs_array_create(idim,jdim,type,SPA[hdl_a].idx_size);
+  s_c = sai_create(idim,jdim,type,SPA[hdl_a].idx_size,SPA[hdl_a].grp);
   hdl_c = GA_OFFSET + s_c;
   free(SPA[hdl_c].idx);
   free(SPA[hdl_c].jdx);
@@ -2697,7 +2716,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       nblocks++;
     }
   }
-  SPA[hdl_c].offset[0] = 0;
+  if (nblocks > 0) SPA[hdl_c].offset[0] = 0;
   for (i=1; i<nblocks; i++) {
     SPA[hdl_c].offset[i] = SPA[hdl_c].offset[i-1]+SPA[hdl_c].blksize[i-1];
   }
@@ -2738,103 +2757,57 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
   /* Set up global arrays to hold distributed indices and non-zero values */
   {
     int64_t isize = (rowdim+1)*nblocks;
-    Integer totalsize = 0;
-    Integer ndim = 1;
-    Integer *offset = (Integer*)malloc(nprocs*sizeof(Integer));
     Integer *tmp = (Integer*)malloc(nprocs*sizeof(Integer));
-    Integer *map = (Integer*)malloc(nprocs*sizeof(Integer));
-    /* set up array to hold row indices. Evaluate offsets for rows */
-    for (i=0; i<nprocs; i++) {
-      offset[i] = 0;
-      tmp[i] = 0;
-    }
+    /* set up array to hold row indices. Evaluate number of indices on each
+     * process */
+    for (i=0; i<nprocs; i++) tmp[i] = 0;
     tmp[me] = isize;
     if (sizeof(Integer) == 8) {
       pnga_pgroup_gop(SPA[hdl_a].grp,C_LONG,tmp,nprocs,"+");
     } else {
       pnga_pgroup_gop(SPA[hdl_a].grp,C_INT,tmp,nprocs,"+");
     }
-    offset[0] = 0;
-    for (i=0; i<nprocs; i++) {
-      totalsize += tmp[i];
-      if (i>0) offset[i] = offset[i-1]+tmp[i-1];
-      map[i] = offset[i]+1; /* 1-based indexing for map array */
-    }
-
     SPA[hdl_c].g_i = pnga_create_handle();
-    if (longidx) {
-      pnga_set_data(SPA[hdl_c].g_i,ndim,&totalsize,C_LONG);
-    } else {
-      pnga_set_data(SPA[hdl_c].g_i,ndim,&totalsize,C_INT);
-    }
-    pnga_set_pgroup(SPA[hdl_c].g_i,SPA[hdl_c].grp);
-    pnga_set_irreg_distr(SPA[hdl_c].g_i,map,&nprocs);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_allocate(SPA[hdl_c].g_i);
-    /* set up arrays to hold column indices and data. Evaluate offsets
-     * for row blocks*/
-    for (i=0; i<nprocs; i++) {
-      offset[i] = 0;
-      tmp[i] = 0;
-    }
+    sai_allocate(SPA[hdl_c].g_i,(longidx?C_LONG:C_INT),SPA[hdl_c].grp,tmp);
+    /* set up arrays to hold column indices and data. Evaluate number of
+     * values on each process */
+    for (i=0; i<nprocs; i++) tmp[i] = 0;
     tmp[me] = lcnt;
     if (sizeof(Integer) == 8) {
       pnga_pgroup_gop(SPA[hdl_a].grp,C_LONG,tmp,nprocs,"+");
     } else {
       pnga_pgroup_gop(SPA[hdl_a].grp,C_INT,tmp,nprocs,"+");
     }
-    offset[0] = 0;
-    totalsize = 0;
-    for (i=0; i<nprocs; i++) {
-      totalsize += tmp[i];
-      if (i>0) offset[i] = offset[i-1]+tmp[i-1];
-      map[i] = offset[i]+1; /* 1-based indexing for map array */
-    }
-    pnga_mask_sync(local_sync_begin,local_sync_end);
     SPA[hdl_c].g_j = pnga_create_handle();
-    pnga_mask_sync(local_sync_begin,local_sync_end);
     SPA[hdl_c].g_data = pnga_create_handle();
-    nnz = totalsize;
-    if (longidx) {
-      pnga_set_data(SPA[hdl_c].g_j,ndim,&totalsize,C_LONG);
-    } else {
-      pnga_set_data(SPA[hdl_c].g_j,ndim,&totalsize,C_INT);
-    }
-    pnga_set_data(SPA[hdl_c].g_data,ndim,&totalsize,SPA[hdl_c].type);
-    pnga_set_pgroup(SPA[hdl_c].g_j,SPA[hdl_c].grp);
-    pnga_set_irreg_distr(SPA[hdl_c].g_j,map,&nprocs);
-    pnga_set_pgroup(SPA[hdl_c].g_data,SPA[hdl_c].grp);
-    pnga_set_irreg_distr(SPA[hdl_c].g_data,map,&nprocs);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_allocate(SPA[hdl_c].g_j);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_allocate(SPA[hdl_c].g_data);
-    free(map);
+    sai_allocate(SPA[hdl_c].g_j,(longidx?C_LONG:C_INT),SPA[hdl_c].grp,tmp);
+    sai_allocate(SPA[hdl_c].g_data,SPA[hdl_c].type,SPA[hdl_c].grp,tmp);
     free(tmp);
-    free(offset);
   }
   /* organize row block into column blocks in CSR format */
   {
-    int *ti, *tj;
-    int64_t *lti, *ltj;
-    void *tdata;
+    int *ti = NULL, *tj = NULL;
+    int64_t *lti = NULL, *ltj = NULL;
+    void *tdata = NULL;
     Integer tlo, thi, tld;
     char *cdata, *ctdata;
     /* Get pointers to global arrays */
-    pnga_distribution(SPA[hdl_c].g_i,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
-    }
-    pnga_distribution(SPA[hdl_c].g_j,me,&tlo,&thi);
-    if (longidx) {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
-    } else {
-      pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+    if (lcnt > 0) {
+      pnga_distribution(SPA[hdl_c].g_i,me,&tlo,&thi);
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
+      }
+      pnga_distribution(SPA[hdl_c].g_j,me,&tlo,&thi);
+      if (longidx) {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
+      } else {
+        pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
+      }
+      pnga_distribution(SPA[hdl_c].g_data,me,&tlo,&thi);
+      pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
     }
-    pnga_distribution(SPA[hdl_c].g_data,me,&tlo,&thi);
-    pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
     idx = SPA[hdl_c].idx;
     jdx = SPA[hdl_c].jdx;
     cdata = (char*)SPA[hdl_c].val;
@@ -3225,7 +3198,7 @@ Integer pnga_sprs_array_get_column(Integer s_a, Integer icol)
     _type _val;                                             \
     _idx_type _ii, _jj, _ld;                                \
     Integer _idx, _jdx;                                     \
-    _ld = (_idx_type)(hi[0]-lo[0]+1);                       \
+    _ld = (_idx_type)ld;                                    \
     for (j=lo[1]; j<=hi[1]; j++) {                          \
       _jj = (_idx_type)(j-lo[1]);                           \
       for (i=lo[0]; i<=hi[0]; i++) {                        \
@@ -3253,7 +3226,7 @@ Integer pnga_sprs_array_get_column(Integer s_a, Integer icol)
     _type _val[2];                                          \
     _idx_type _ii, _jj, _ld;                                \
     Integer _idx, _jdx;                                     \
-    _ld = (_idx_type)(hi[0]-lo[0]+1);                       \
+    _ld = (_idx_type)ld;                                    \
     for (j=lo[1]; j<=hi[1]; j++) {                          \
       _jj = (_idx_type)(j-lo[1]);                           \
       for (i=lo[0]; i<=hi[0]; i++) {                        \
@@ -3317,11 +3290,17 @@ Integer pnga_sprs_array_create_from_dense(Integer g_a, Integer idx_size,
   }
 
   /* create sparse array */
-  s_a = pnga_sprs_array_create(idim, jdim, type, idx_size);
+  s_a = sai_create(idim, jdim, type, idx_size, grp);
   /* find bounding indices of locally owned block from global array */
   pnga_distribution(g_a,me,lo,hi);
   /* get pointer to locally owned block */
-  pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  vptr = NULL;
+  if (lo[0] <= hi[0] && lo[1] <= hi[1]) {
+    pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  } else {
+    ld = 1;
+    hi[1] = lo[1]-1;
+  }
   /* add all non-zero entries from g_a to s_a. Add diagonal elements
    * to s_a even if they are zero */
   if (idx_size == 4) {
@@ -3414,7 +3393,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   if (trans) {
     map[me+1] = SPA[handle].ilo+1;
   } else {
-    map[me+1] = SPA[handle].ilo+1;
+    map[me] = SPA[handle].ilo+1;
   }
   plus[0] = '+';
   plus[1] = '\0';
@@ -3429,9 +3408,15 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     map[nprocs] = 1;
   }
   g_a = pnga_create_handle();
-  dims[0] = SPA[handle].idim;
-  dims[1] = SPA[handle].jdim;
+  if (trans) {
+    dims[0] = SPA[handle].jdim;
+    dims[1] = SPA[handle].idim;
+  } else {
+    dims[0] = SPA[handle].idim;
+    dims[1] = SPA[handle].jdim;
+  }
   pnga_set_data(g_a,two,dims,SPA[handle].type);
+  pnga_set_pgroup(g_a,SPA[handle].grp);
   if (trans) {
     nblock[0] = 1;
     nblock[1] = nprocs;
@@ -3452,7 +3437,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   ihi = SPA[handle].ihi;
   if (trans) {
     lo[0] = 1;
-    hi[0] = SPA[handle].idim;
+    hi[0] = SPA[handle].jdim;
     lo[1] = ilo+1;
     hi[1] = ihi+1;
   } else {
@@ -3699,7 +3684,8 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     pnga_error("(ga_sprs_array_sprsdns_multiply) could not allocate"
       " product array C",0);
   }
-  pnga_mask_sync(local_sync_begin,local_sync_end);
+  free(map);
+  free(size);
   pnga_zero(g_c);
   /* loop over processors in row to get target block and then loop over
    * processors to get all block pairs that contribute to target block.
@@ -3712,9 +3698,10 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = SPA[hdl_a].ilo+1;
     hi_c[0] = SPA[hdl_a].ihi+1;
-    pnga_sprs_array_column_distribution(s_a,l,&lo_c[1],&hi_c[1]);
+    sai_limits(jdim,nprocs,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
+    if (lo_c[0] > hi_c[0] || lo_c[1] > hi_c[1]) continue;
     /* loop over all sub-blocks in column and row block that contribute
      * to target block */
     if (trans) {
@@ -3916,7 +3903,7 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
           _type _ra, _ia, _rb, _ib, _rc, _ic;                        \
           _jj = _jptr_b[_iptr_b[_kk]+_j]-_jlo_b+1;                   \
           _ra = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)];                 \
-          _ia = ((_type*)_ptr_a)[2*(_ii*_kk*_ld_a)+1];               \
+          _ia = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)+1];               \
           _rb = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)];               \
           _ib = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)+1];             \
           ((_type*)_ptr_c)[2*(_jj*_ld_c + _ii)]                      \
@@ -3986,8 +3973,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_error("(ga_sprs_array_dnssprs_multiply) matrix A must be"
     " of dimension 2",GA[hdl_a].ndim);
   }
-  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].jdim) ||
-      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].jdim)) {
+  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].idim) ||
+      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].idim)) {
     pnga_error("(ga_sprs_array_dnssprs_multiply) column dimension of"
       " A must match row dimension of B",0);
   }
@@ -4072,6 +4059,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_error("(ga_sprs_array_sprsdns_multiply) could not allocate"
       " product array C",0);
   }
+  free(map);
+  free(size);
   pnga_zero(g_c);
   /* loop over processors in row to get target block and then loop over
    * processors to get all block pairs that contribute to target block.
@@ -4084,9 +4073,10 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = ilo;
     hi_c[0] = ihi;
-    pnga_sprs_array_row_distribution(s_b,l,&lo_c[1],&hi_c[1]);
+    pnga_sprs_array_column_distribution(s_b,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
+    if (lo_c[0] > hi_c[0] || lo_c[1] > hi_c[1]) continue;
     if (trans) {
       tlo_c[0] = lo_c[1];
       thi_c[0] = hi_c[1];
@@ -4202,6 +4192,9 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
         }
       }
       free(buf_a);
+      free(iptr_b);
+      free(jptr_b);
+      free(val_b);
     }
   }
   if (local_sync_end) pnga_pgroup_sync(SPA[hdl_b].grp);
@@ -4247,7 +4240,7 @@ void pnga_sprs_array_scale(Integer s_a, void *scale)
   Integer hdl_a = s_a+GA_OFFSET;
   int local_sync_begin,local_sync_end;
   Integer s_lo, s_hi;
-  Integer ld;
+  Integer i, ld;
   Integer me = pnga_pgroup_nodeid(SPA[hdl_a].grp);
   void *vptr;
 
@@ -4255,7 +4248,11 @@ void pnga_sprs_array_scale(Integer s_a, void *scale)
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(SPA[hdl_a].grp);
   pnga_distribution(SPA[hdl_a].g_data,me,&s_lo,&s_hi);
-  pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
+  /* only access the values that are part of the sparse array */
+  s_hi = s_lo-1;
+  for (i=0; i<SPA[hdl_a].nblocks; i++) s_hi += SPA[hdl_a].blksize[i];
+  vptr = NULL;
+  if (s_lo <= s_hi) pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
   if (SPA[hdl_a].type == C_INT) {
     SPRS_REAL_SCALE_M(int,vptr,s_lo,s_hi,scale);
   } else if (SPA[hdl_a].type == C_LONG) {
-- 
2.43.0


From 5757aaac530acb82fe9b94fa4a3b09222d9c9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 34/48] fix: array properties: read-only arrays on several
 nodes, removal of the read cache property, cached gets into padded buffers,
 duplicates and destruction of arrays with properties, accounting

---
 global/src/base.c     | 136 ++++++++++++++++++++++++------------------
 global/src/onesided.c |   8 ++-
 2 files changed, 84 insertions(+), 60 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 87af6b3..f5e9a51 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -401,6 +401,7 @@ void pnga_initialize()
        GA[i].rstrctd_list = (C_Integer*)0;
        GA[i].rank_rstrctd = (C_Integer*)0;
        GA[i].property = NO_PROPERTY;
+       GA[i].cache_head = NULL;
        GA[i].mem_dev_set = 0;
 #ifdef ENABLE_CHECKPOINT
        GA[i].record_id = 0;
@@ -1549,6 +1550,7 @@ Integer pnga_create_handle()
   GA[ga_handle].actv_handle = 1;
   GA[ga_handle].has_data = 1;
   GA[ga_handle].property = NO_PROPERTY;
+  GA[ga_handle].cache_head = NULL;
   return g_a;
 }
 
@@ -2053,6 +2055,21 @@ void pnga_set_restricted_range(Integer g_a, Integer lo_proc, Integer hi_proc)
   GA[ga_handle].rstrctd_id = id;
 }
 
+/**
+ * Release all patches that have been cached for a READ_CACHE array
+ */
+static void gai_free_read_cache(Integer ga_handle)
+{
+  cache_struct_t *item = GA[ga_handle].cache_head;
+  while (item) {
+    cache_struct_t *next = item->next;
+    if (item->cache_buf) free(item->cache_buf);
+    free(item);
+    item = next;
+  }
+  GA[ga_handle].cache_head = NULL;
+}
+
 /**
  *  Set the property on a global array.
  */
@@ -2085,6 +2102,12 @@ void pnga_set_property(Integer g_a, char* property) {
     if (GA[ga_handle].p_handle != pnga_pgroup_get_world()) {
       pnga_error("Arrays on subgroups not supported for READ_ONLY",0);
     }
+    if (GA[ga_handle].num_rstrctd > 0) {
+      pnga_error("Restricted arrays not supported for READ_ONLY",0);
+    }
+    if (GA[ga_handle].ghosts) {
+      pnga_error("Arrays with ghost cells not supported for READ_ONLY",0);
+    }
     ndim = (int)GA[ga_handle].ndim;
     btot = 0;
     for (i=0; i<ndim; i++) {
@@ -2118,6 +2141,7 @@ void pnga_set_property(Integer g_a, char* property) {
     }
     handle = pnga_pgroup_create(list, nprocs);
     free(list);
+    pnga_pgroup_set_default(dflt_grp);
     GA[ga_handle].p_handle = handle;
     GA[ga_handle].property = READ_ONLY;
 
@@ -2249,8 +2273,9 @@ void pnga_set_property(Integer g_a, char* property) {
       GA[ga_handle].ptr[grp_me]=NULL;
     }
     GA[ga_handle].size = (C_Long)mem_size;
+    GAstat.maxmem = (long)GA_MAX(GAstat.maxmem, GAstat.curmem);
     if (!status) {
-      pnga_error("Memory failure when unsetting READ_ONLY",0);
+      pnga_error("Memory failure when setting READ_ONLY",0);
     }
     /* Copy data from copy of old GA to new GA and then get rid of copy*/
     pnga_distribution(g_a,GAme,lo,hi);
@@ -2361,6 +2386,8 @@ void pnga_unset_property(Integer g_a) {
       pnga_access_ptr(g_tmp,lo,hi,&ptr,ld);
       pnga_get(g_a,lo,hi,ptr,ld);
     }
+    /* other processes on this node may still be reading the local copy */
+    pnga_pgroup_sync(GA[ga_handle].p_handle);
 
     /* Get rid of current memory allocation */
 #ifndef AVOID_MA_STORAGE
@@ -2402,6 +2429,13 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].mapc[i] = GA[ga_handle].old_mapc[i];
     }
     free(GA[ga_handle].old_mapc);
+    GA[ga_handle].old_mapc = NULL;
+    for (i=0; i<ndim; i++) {
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
+    }
+    /* the original distribution applies from here on */
+    GA[ga_handle].property = NO_PROPERTY;
 
     pnga_distribution(g_a, grp_me, GA[ga_handle].lo, hi);
     chk = 1;
@@ -2438,15 +2472,16 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].ptr[grp_me]=NULL;
     }
     GA[ga_handle].size = (C_Long)mem_size;
+    GAstat.curmem += mem_size;
+    GAstat.maxmem = (long)GA_MAX(GAstat.maxmem, GAstat.curmem);
     if (!status) {
-      pnga_error("Memory failure when setting READ_ONLY",0);
+      pnga_error("Memory failure when unsetting READ_ONLY",0);
     }
     /* Get rid of read-only group */
     pnga_pgroup_destroy(handle);
     /* Generate parameters for new memory allocation. Distribution function
      * should work, so we can use that to find out how much data is on this
      * processor */
-    GA[ga_handle].property = NO_PROPERTY;
     pnga_distribution(g_a,GAme,lo,hi);
     chk = 1;
     nelem = 1;
@@ -2472,21 +2507,8 @@ void pnga_unset_property(Integer g_a) {
     }
     pnga_destroy(g_tmp);
   } else if (GA[ga_handle].property == READ_CACHE) {
-    if (GA[ga_handle].cache_head != NULL) {
-      cache_struct_t *next;
-      next = GA[ga_handle].cache_head->next;
-      if (GA[ga_handle].cache_head->cache_buf)
-        free(GA[ga_handle].cache_head->cache_buf);
-      free(GA[ga_handle].cache_head);
-      while (next) {
-        GA[ga_handle].cache_head = next;
-        next = next->next;
-        if (GA[ga_handle].cache_head->cache_buf)
-          free(GA[ga_handle].cache_head->cache_buf);
-        free(GA[ga_handle].cache_head);
-      }
-    }
-    GA[ga_handle].cache_head = NULL;
+    gai_free_read_cache(ga_handle);
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
@@ -3694,8 +3716,7 @@ void pnga_distribution(Integer g_a, Integer proc, Integer *lo, Integer * hi)
    * processors on the world group */
   if (GA[ga_handle].property == READ_ONLY) {
     Integer node = pnga_cluster_proc_nodeid(proc);
-    Integer nodesize = pnga_cluster_nprocs(node);
-    lproc = proc%nodesize;
+    lproc = proc - pnga_cluster_procid(node,0);
   }
   ga_ownsM(ga_handle, lproc, lo, hi);
 }
@@ -3747,10 +3768,14 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   Integer grp_id, grp_me=GAme;
   /* Integer grp_nproc=GAnproc; */
   int maplen;
+  C_Integer *map;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   grp_id = pnga_get_pgroup(g_a);
+  /* the duplicate of a read-only array is an ordinary array */
+  if (GA[GA_OFFSET + g_a].property == READ_ONLY)
+    grp_id = (Integer)GA[GA_OFFSET + g_a].old_handle;
   if(local_sync_begin)pnga_pgroup_sync(grp_id);
 
   if (grp_id > 0) {
@@ -3782,12 +3807,34 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   GA[ga_handle].crenum = GAstat.numcre;
   GA[ga_handle].ptr = save_ptr;
   GA[ga_handle].distr_type = GA[GA_OFFSET + g_a].distr_type;
-  maplen = calc_maplen(GA_OFFSET + g_a);
+  /*** access properties are not inherited ***/
+  map = GA[GA_OFFSET + g_a].mapc;
+  GA[ga_handle].property = NO_PROPERTY;
+  GA[ga_handle].old_mapc = NULL;
+  if (GA[GA_OFFSET + g_a].property == READ_ONLY) {
+    map = GA[GA_OFFSET + g_a].old_mapc;
+    GA[ga_handle].p_handle = GA[ga_handle].old_handle;
+    for (i=0; i<GA[ga_handle].ndim; i++) {
+      GA[ga_handle].nblock[i] = GA[ga_handle].old_nblock[i];
+      GA[ga_handle].lo[i] = GA[ga_handle].old_lo[i];
+      GA[ga_handle].chunk[i] = GA[ga_handle].old_chunk[i];
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
+    }
+  }
+  maplen = calc_maplen(ga_handle);
   if (maplen > 0) {
     GA[ga_handle].mapc = (C_Integer*)malloc((maplen+1)*sizeof(C_Integer*));
-    for(i=0;i<maplen; i++)GA[ga_handle].mapc[i] = GA[GA_OFFSET+ g_a].mapc[i];
+    for(i=0;i<maplen; i++)GA[ga_handle].mapc[i] = map[i];
     GA[ga_handle].mapc[maplen] = -1;
   }
+  if (GA[GA_OFFSET + g_a].property == READ_ONLY) {
+    Integer lo[MAXDIM], hi[MAXDIM];
+    ga_ownsM(ga_handle, GAme, lo, hi);
+    GA[ga_handle].size = GA[ga_handle].elemsize;
+    for (i=0; i<GA[ga_handle].ndim; i++)
+      GA[ga_handle].size *= GA_MAX(hi[i]-lo[i]+1, 0);
+  }
 
   /*** caches belong to a single array ***/
   GA[ga_handle].cache = NULL;
@@ -3932,6 +3979,8 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       strcpy(GA[ga_handle].name, array_name);
       GA[ga_handle].crenum = GAstat.numcre;
       GA[ga_handle].ptr = save_ptr;
+      GA[ga_handle].cache = NULL;
+      GA[ga_handle].cache_head = NULL;
       if (maplen > 0) {
         GA[ga_handle].mapc = (C_Integer*)malloc((maplen+1)*sizeof(C_Integer*));
         for(i=0;i<maplen; i++)GA[ga_handle].mapc[i] = GA[GA_OFFSET+ g_a].mapc[i];
@@ -4003,27 +4052,11 @@ int local_sync_begin,local_sync_end;
        GA[ga_handle].mapc = NULL;
     } 
 
-    if (GA[ga_handle].property == READ_CACHE) {
-      if (GA[ga_handle].cache_head != NULL) {
-        cache_struct_t *next;
-        next = GA[ga_handle].cache_head->next;
-        if (GA[ga_handle].cache_head->cache_buf)
-          free(GA[ga_handle].cache_head->cache_buf);
-        free(GA[ga_handle].cache_head);
-        while (next) {
-          GA[ga_handle].cache_head = next;
-          next = next->next;
-          if (GA[ga_handle].cache_head->cache_buf)
-            free(GA[ga_handle].cache_head->cache_buf);
-          free(GA[ga_handle].cache_head);
-        }
-      }
-    }
-    GA[ga_handle].cache_head = NULL;
+    gai_free_read_cache(ga_handle);
 
     if (GA[ga_handle].property == READ_ONLY) {
       free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
+      GA[ga_handle].old_mapc = NULL;
     }
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
@@ -4060,6 +4093,11 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* the node group of a read-only array disappears with the array */
+    if (GA[ga_handle].property == READ_ONLY) {
+      GA[ga_handle].property = NO_PROPERTY;
+      pnga_pgroup_destroy(grp_id);
+    }
     return(TRUE);
 }
 
@@ -4096,23 +4134,7 @@ logical pnga_deallocate(Integer g_a)
   GA[ga_handle].cache = NULL;
   GA[ga_handle].actv = 0;     
 
-  if (GA[ga_handle].property == READ_CACHE) {
-    if (GA[ga_handle].cache_head != NULL) {
-      cache_struct_t *next;
-      next = GA[ga_handle].cache_head->next;
-      if (GA[ga_handle].cache_head->cache_buf)
-        free(GA[ga_handle].cache_head->cache_buf);
-      free(GA[ga_handle].cache_head);
-      while (next) {
-        GA[ga_handle].cache_head = next;
-        next = next->next;
-        if (GA[ga_handle].cache_head->cache_buf)
-          free(GA[ga_handle].cache_head->cache_buf);
-        free(GA[ga_handle].cache_head);
-      }
-    }
-  }
-  GA[ga_handle].cache_head = NULL;
+  gai_free_read_cache(ga_handle);
 
   if(GA[ga_handle].ptr[grp_me]==NULL){
     return TRUE;
diff --git a/global/src/onesided.c b/global/src/onesided.c
index 73fa05b..61266ee 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1154,11 +1154,10 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
   Integer handle = GA_OFFSET + g_a;
   enum property_type ga_property = GA[handle].property;
 
+  GA_Internal_Threadsafe_Lock();
   if (ga_property != READ_CACHE) /* if array is not read only */
   {
-    GA_Internal_Threadsafe_Lock();
     ngai_get_common(g_a,lo,hi,buf,ld,0,-1,(Integer *)NULL);
-    GA_Internal_Threadsafe_Unlock();
   } else {
     int i;
     int nelem;
@@ -1229,7 +1228,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
@@ -1284,13 +1283,16 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           next = cache_temp_pointer->next;
           free(cache_temp_pointer->cache_buf);
           free(cache_temp_pointer);
+          cache_temp_pointer = next;
         }
         break;
       }
       cache_size++;
+      cache_temp_pointer = cache_temp_pointer->next;
     }
     /* end */
   }
+  GA_Internal_Threadsafe_Unlock();
 }
 
 #if HAVE_SYS_WEAK_ALIAS_PRAGMA
-- 
2.43.0


From a420ac7457891d6943111e11462f6d7f28400f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 35/48] fix: pointer arrays: ranges tested against the caller's
 own block, sizes returned by get, put, gather and scatter, buffers freed
 wrongly or never, element sizes of local accesses, freeing an element before
 reassigning it, processes without elements

---
 gparrays/src/gpbase.c     |  28 +++++--
 gparrays/src/gponesided.c | 150 +++++++++++++++++++++++---------------
 2 files changed, 111 insertions(+), 67 deletions(-)

diff --git a/gparrays/src/gpbase.c b/gparrays/src/gpbase.c
index a0a3dfa..474af11 100644
--- a/gparrays/src/gpbase.c
+++ b/gparrays/src/gpbase.c
@@ -72,6 +72,8 @@ void pgp_terminate()
   }
   pnga_deregister_type(GP_pointer_type);
   gpi_onesided_clean();
+  free(GP);
+  GP = NULL;
 }
 
 /**
@@ -451,8 +453,8 @@ void* pgp_free_local_element(Integer g_p, Integer *subscript)
 {
   armci_meminfo_t *gp_ptr;
   void *ptr;
-  Integer handle, ld[GP_MAX_DIM-1], i;
-  GP_Int buf;
+  Integer handle, ld[GP_MAX_DIM-1], i, type;
+  void *size_ptr;
   handle = g_p + GP_OFFSET;
   /* check to make sure that element is located in local block of GP array */
   for (i=0; i<GP[handle].ndim; i++) {
@@ -465,12 +467,17 @@ void* pgp_free_local_element(Integer g_p, Integer *subscript)
   memset((void*)gp_ptr,0,sizeof(armci_meminfo_t));
   pnga_release_update(GP[handle].g_ptr_array, subscript, subscript);
 
-  /* set corresponding element of size array to zero */
-  buf = 0;
-  for (i=0; i<GP[handle].ndim-1; i++) {
-    ld[i] = 1;
+  /* set corresponding element of size array to zero. The element is local, so
+   * that it is updated directly: a put need not have been completed before the
+   * element is assigned again */
+  pnga_access_ptr(GP[handle].g_size_array,subscript,subscript,&size_ptr,ld);
+  pnga_inquire_type(GP[handle].g_size_array, &type);
+  if (type == C_INT) {
+    *((int*)size_ptr) = 0;
+  } else {
+    *((GP_Int*)size_ptr) = 0;
   }
-  pnga_put(GP[handle].g_size_array, subscript, subscript, &buf, ld);
+  pnga_release_update(GP[handle].g_size_array, subscript, subscript);
   return ptr;
 }
 
@@ -498,7 +505,12 @@ void pgp_memzero(Integer g_p, Integer intsize)
   pgp_distribution(g_p, me, lo, hi);
   nelems = 1;
   for (i=0; i<ndim; i++) {
-    nelems *= (hi[i]-lo[i]+1);
+    nelems *= (hi[i] >= lo[i] ? hi[i]-lo[i]+1 : 0);
+  }
+  if (nelems == 0) {
+    /* nothing is held locally */
+    pnga_sync();
+    return;
   }
 
   /* Get pointers to local data elements and their sizes */
diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index be48dd5..5e006a0 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -83,14 +83,14 @@ void pgp_get_size(Integer g_p, Integer *lo, Integer *hi,
   Integer handle, ndim, i, nelems;
   Integer block_ld[GP_MAX_DIM-1];
   int *int_ptr;
-  int *long_ptr;
+  int64_t *long_ptr;
   handle = g_p + GP_OFFSET;
   if (!GP[handle].active) {
     pnga_error("gp_get_size: inactive array handle specified", g_p);
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get_size: illegal block size specified", g_p);
   }
 
@@ -115,7 +115,7 @@ void pgp_get_size(Integer g_p, Integer *lo, Integer *hi,
     }
     free(int_ptr);
   } else {
-    long_ptr = (int*)malloc(nelems*sizeof(int64_t));
+    long_ptr = (int64_t*)malloc(nelems*sizeof(int64_t));
     pnga_get(GP[handle].g_size_array, lo, hi, long_ptr, block_ld);
     for (i=0; i<nelems; i++) {
       *size += (Integer)long_ptr[i];
@@ -172,7 +172,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get: illegal block size specified", g_p);
   }
   /*bjp
@@ -202,7 +202,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
   /*bjp
     printf("p[%d] ld[0]: %d ld_sz[0]: %d\n",me,ld[0],ld_sz[0]);
    */
-  while(idx<nelems && !setbuf) {
+  while(idx<nelems) {
     /* find local index for idx in the requested block */
     itmp = idx;
     for (j=0; j<ndim-1; j++) {
@@ -219,7 +219,9 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
       offset_d = offset_d*ld[d] + index[d];
     }
     /* evaluate offset in data buffer */
-    buf_ptr[offset_d] = (void*)(((char*)buf)+offset_ptr);
+    if (!setbuf) {
+      buf_ptr[offset_d] = (void*)(((char*)buf)+offset_ptr);
+    }
     if (intsize == 4) {
       offset_ptr += ((int*)buf_size)[offset_sz];
     } else {
@@ -282,8 +284,6 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
         itmp = (itmp - index[d])/block_ld_loc[d];
       }
       index[ndim-1] = itmp;
-      src_array[j]=(void**)malloc(sizeof(void*));
-      dst_array[j]=(void**)malloc(sizeof(void*));
 
       /* evaluate local offsets */
       offset_rem = index[ndim-1];
@@ -307,20 +307,22 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
         printf("p[%d] bytes: %d\n",me,bytes);
        */
       if (bytes > 0) {
+        src_array[jcnt]=(void**)malloc(sizeof(void*));
+        dst_array[jcnt]=(void**)malloc(sizeof(void*));
         if (rem_ptr[offset_rem].cpid == me) {
-          (src_array[j])[0] = ((void*)(rem_ptr[offset_rem].addr));
+          (src_array[jcnt])[0] = ((void*)(rem_ptr[offset_rem].addr));
           /* handle remote and SMP case */
         } else if (pnga_cluster_proc_nodeid(me) ==
             pnga_cluster_proc_nodeid(rem_ptr[offset_rem].cpid)) {
-          (src_array[j])[0] = ARMCI_Memat(&rem_ptr[offset_rem],
+          (src_array[jcnt])[0] = ARMCI_Memat(&rem_ptr[offset_rem],
               sizeof(armci_meminfo_t));
         } else {
-          (src_array[j])[0] = (void*)rem_ptr[offset_rem].armci_addr;
+          (src_array[jcnt])[0] = (void*)rem_ptr[offset_rem].armci_addr;
         }
-        (dst_array[j])[0] = (void*)buf_ptr[offset_d];
+        (dst_array[jcnt])[0] = (void*)buf_ptr[offset_d];
 #define DBG
-        desc[jcnt].src_ptr_array = src_array[j];
-        desc[jcnt].dst_ptr_array = dst_array[j];
+        desc[jcnt].src_ptr_array = src_array[jcnt];
+        desc[jcnt].dst_ptr_array = dst_array[jcnt];
         desc[jcnt].bytes = bytes;
         desc[jcnt].ptr_array_len = 1;
         /*bjp
@@ -403,7 +405,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_put: illegal block size specified", g_p);
   }
 
@@ -417,6 +419,8 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
 
   /* Check size of elements in buf_size against size of elements in GP size
    * array. Throw an error if there is a mismatch */
+  tmpsize32 = NULL;
+  tmpsize64 = NULL;
   if (checksize) {
     if (intsize == 4) {
       tmpsize32 = (int*)malloc(nelems*sizeof(int));
@@ -425,26 +429,37 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       tmpsize64 = (int64_t*)malloc(nelems*sizeof(int64_t));
       pnga_get(GP[handle].g_size_array, lo, hi, tmpsize64, block_ld);
     }
-    if (intsize == 4) {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize32[i] != (int)((int*)buf_size)[i])
-          pnga_error("gp_put: mismatch in element sizes", i);
-      }
-    } else {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize64[i] != (int64_t)((int64_t*)buf_size)[i])
-          pnga_error("gp_put: mismatch in element sizes", i);
-      }
+  }
+
+  /* Evaluate the total size of the data */
+  offset_ptr = 0;
+  for (idx=0; idx<nelems; idx++) {
+    Integer esize;
+    /* find local index for idx in the requested block */
+    itmp = idx;
+    for (j=0; j<ndim-1; j++) {
+      index[j] = itmp%block_ld[j];
+      itmp = (itmp - index[j])/block_ld[j];
+    }
+    index[ndim-1] = itmp;
+    offset_sz = index[ndim-1];
+    for (d=ndim-2; d>=0; d--) {
+      offset_sz = offset_sz*ld_sz[d] + index[d];
     }
     if (intsize == 4) {
-      free(tmpsize32);
+      esize = (Integer)((int*)buf_size)[offset_sz];
+      if (checksize && (Integer)tmpsize32[idx] != esize)
+        pnga_error("gp_put: mismatch in element sizes", idx);
     } else {
-      free(tmpsize64);
+      esize = (Integer)((int64_t*)buf_size)[offset_sz];
+      if (checksize && (Integer)tmpsize64[idx] != esize)
+        pnga_error("gp_put: mismatch in element sizes", idx);
     }
+    offset_ptr += esize;
   }
-
-  idx = 0;
-  offset_ptr = 0;
+  free(tmpsize32);
+  free(tmpsize64);
+  *size = offset_ptr;
 
   /* locate the processors containing some portion of the patch represented by
    * lo and hi and return the results in _gp_map, gp_proclist, and np.
@@ -490,8 +505,6 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
         itmp = (itmp - index[d])/block_ld_loc[d];
       }
       index[ndim-1] = itmp;
-      src_array[j]=(void**)malloc(sizeof(void*));
-      dst_array[j]=(void**)malloc(sizeof(void*));
 
       /* evaluate local offsets */
       offset_rem = index[ndim-1];
@@ -508,20 +521,22 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
         bytes = (int)((int64_t*)buf_size)[offset_sz];
       }
       if (bytes > 0) {
+        src_array[jcnt]=(void**)malloc(sizeof(void*));
+        dst_array[jcnt]=(void**)malloc(sizeof(void*));
         if (rem_ptr[offset_rem].cpid == me) {
-          (dst_array[j])[0] = ((void*)(rem_ptr[offset_rem].addr));
+          (dst_array[jcnt])[0] = ((void*)(rem_ptr[offset_rem].addr));
           /* handle remote and SMP case */
         } else if (pnga_cluster_proc_nodeid(me) ==
             pnga_cluster_proc_nodeid(rem_ptr[offset_rem].cpid)) {
-          (dst_array[j])[0] = ARMCI_Memat(&rem_ptr[offset_rem],
+          (dst_array[jcnt])[0] = ARMCI_Memat(&rem_ptr[offset_rem],
               sizeof(armci_meminfo_t));
         } else {
-          (dst_array[j])[0] = (void*)rem_ptr[offset_rem].armci_addr;
+          (dst_array[jcnt])[0] = (void*)rem_ptr[offset_rem].armci_addr;
         }
-        (src_array[j])[0] = (void*)buf_ptr[offset_d];
+        (src_array[jcnt])[0] = (void*)buf_ptr[offset_d];
 #define DBG
-        desc[jcnt].src_ptr_array = src_array[j];
-        desc[jcnt].dst_ptr_array = dst_array[j];
+        desc[jcnt].src_ptr_array = src_array[jcnt];
+        desc[jcnt].dst_ptr_array = dst_array[jcnt];
         desc[jcnt].bytes = bytes;
         desc[jcnt].ptr_array_len = 1;
         jcnt++;
@@ -550,9 +565,9 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
     /* Free temporary buffers */
     free(rem_ptr);
     free(desc);
+    free(src_array);
+    free(dst_array);
   }
-  free(src_array);
-  free(dst_array);
 }
 
 /**
@@ -573,6 +588,7 @@ void pgp_access_element(Integer g_p, Integer *subscript, void *ptr, Integer *siz
   Integer handle, ld[GP_MAX_DIM-1], i;
   Integer one=1;
   Integer *lo, *hi;
+  Integer type;
 
   handle = g_p + GP_OFFSET;
   lo = GP[handle].lo;
@@ -588,7 +604,15 @@ void pgp_access_element(Integer g_p, Integer *subscript, void *ptr, Integer *siz
       ld[i] = one;
     }
   }
-  pnga_get(GP[handle].g_size_array, subscript, subscript, size, ld);
+  pnga_inquire_type(GP[handle].g_size_array, &type);
+  if (type == C_INT) {
+    int isize = 0;
+    pnga_get(GP[handle].g_size_array, subscript, subscript, &isize, ld);
+    *size = (Integer)isize;
+  } else {
+    *size = 0;
+    pnga_get(GP[handle].g_size_array, subscript, subscript, size, ld);
+  }
   pnga_access_ptr(GP[handle].g_ptr_array,subscript,subscript, &gp_ptr, ld);
   *(char**)ptr = (char*)(*gp_ptr).addr;
 }
@@ -644,14 +668,14 @@ void pgp_gather_size(Integer g_p, Integer nv, Integer *subscript, Integer *size,
 
   handle = g_p + GP_OFFSET;
   if (intsize == 4) {
-    size_buf = (void*)malloc((int)nv*sizeof(int));
+    size_buf = (void*)malloc((size_t)nv*sizeof(int));
     /* BJP initialize to value other than 0 
     for (i=0; i<nv; i++) {
       ((int*)size_buf)[i] = -1;
     }
     */
   } else {
-    size_buf = (void*)malloc((int)nv*sizeof(int64_t));
+    size_buf = (void*)malloc((size_t)nv*sizeof(int64_t));
   }
   pnga_gather(GP[handle].g_size_array, size_buf, subscript, 0, nv);
 
@@ -704,10 +728,10 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
   int rc, bytes;
 
   handle = g_p + GP_OFFSET;
-  nproc = pnga_nnodes();
-  me = pnga_nodeid();
+  nproc = pnga_pgroup_nnodes(pnga_pgroup_get_world());
+  me = (Integer)armci_msg_me();
 
-  info_buf = (armci_meminfo_t*)malloc((int)nv*sizeof(armci_meminfo_t)); 
+  info_buf = (armci_meminfo_t*)malloc((size_t)nv*sizeof(armci_meminfo_t)); 
   pnga_gather(GP[handle].g_ptr_array, info_buf, subscript, 0, nv);
   if (!setbuf) {
     pnga_gather(GP[handle].g_size_array, buf_size, subscript, 0, nv);
@@ -719,7 +743,7 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
    * nelems[iproc]: total number of elements on processor iproc
    */
   header = (Integer*)malloc((int)nproc*sizeof(Integer));
-  list = (Integer*)malloc((int)nv*sizeof(Integer));
+  list = (Integer*)malloc((size_t)nv*sizeof(Integer));
   nelems = (Integer*)malloc((int)nproc*sizeof(Integer));
 
   for (i=0; i<nproc; i++) {
@@ -812,9 +836,9 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
 #endif
 
       /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
-        free(src_array[j]);
-        free(dst_array[j]);
+      for (i=0; i<j; i++) {
+        free(src_array[i]);
+        free(dst_array[i]);
       }
       free(src_array);
       free(dst_array);
@@ -830,7 +854,11 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += ((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
 
@@ -866,8 +894,8 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
   int64_t *tmpsize64;
 
   handle = g_p + GP_OFFSET;
-  nproc = pnga_nnodes();
-  me = pnga_nodeid();
+  nproc = pnga_pgroup_nnodes(pnga_pgroup_get_world());
+  me = (Integer)armci_msg_me();
 
   /* Check size of elements in buf_size against size of elements in GP size
    * array. Throw an error if there is a mismatch */
@@ -901,7 +929,7 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
       free(tmpsize64);
     }
   }
-  info_buf = (armci_meminfo_t*)malloc((int)nv*sizeof(armci_meminfo_t)); 
+  info_buf = (armci_meminfo_t*)malloc((size_t)nv*sizeof(armci_meminfo_t)); 
   pnga_gather(GP[handle].g_ptr_array, info_buf, subscript, 0, nv);
 
   /* create link list arrays and other utility arrays
@@ -910,7 +938,7 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
    * nelems[iproc]: total number of elements on processor iproc
    */
   header = (Integer*)malloc((int)nproc*sizeof(Integer));
-  list = (Integer*)malloc((int)nv*sizeof(Integer));
+  list = (Integer*)malloc((size_t)nv*sizeof(Integer));
   nelems = (Integer*)malloc((int)nproc*sizeof(Integer));
 
   for (i=0; i<nproc; i++) {
@@ -984,9 +1012,9 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
 #endif
 
       /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
-        free(src_array[j]);
-        free(dst_array[j]);
+      for (i=0; i<j; i++) {
+        free(src_array[i]);
+        free(dst_array[i]);
       }
       free(src_array);
       free(dst_array);
@@ -1002,6 +1030,10 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += (Integer)((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
-- 
2.43.0


From d3b68288651729d5bf898a193b2033f2a3969751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 36/48] fix: thread safety: test, gather, scatter, strided and
 field transfers and put/notify did not take the library's thread lock

---
 global/src/onesided.c | 55 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 61266ee..221d659 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -355,7 +355,11 @@ Integer _d, _factor;                                                           \
 
 Integer pnga_nbtest(Integer *nbhandle) 
 {
-    return !nga_test_internal((Integer *)nbhandle);
+  Integer done;
+  GA_Internal_Threadsafe_Lock();
+  done = !nga_test_internal((Integer *)nbhandle);
+  GA_Internal_Threadsafe_Unlock();
+  return done;
 } 
 
 /**
@@ -776,6 +780,7 @@ void pnga_nbput_notify(Integer g_a, Integer *lo, Integer *hi, void *buf, Integer
   Integer ldn[MAXDIM] = { 1 };
   int pos, intersect;
 
+  GA_Internal_Threadsafe_Lock();
   /* Make sure everything has been initialized */
   if (!putn_handles_initted) {
     memset(putn_handles, 0, sizeof(putn_handles));
@@ -824,6 +829,7 @@ void pnga_nbput_notify(Integer g_a, Integer *lo, Integer *hi, void *buf, Integer
     ngai_put_common(g_a, ecoords, ecoords, elem_copy, ldn, 0, -1,
 		    &putn_handles[pos].elementhdl);
   }
+  GA_Internal_Threadsafe_Unlock();
 } /* pnga_nbput_notify */
 
 /**
@@ -837,12 +843,15 @@ void pnga_nbwait_notify(Integer *nbhandle)
 {
   int i;
 
+  GA_Internal_Threadsafe_Lock();
   for (i = 0; i < HANDLES_OUTSTANDING; i++)
     if (putn_handles[i].orighdl == nbhandle)
       break;
 
-  if (i >= HANDLES_OUTSTANDING)
+  if (i >= HANDLES_OUTSTANDING) {
+    GA_Internal_Threadsafe_Unlock();
     return; /* Incorrect handle used or maybe wait was called multiple times? */
+  }
 
   nga_wait_internal(&putn_handles[i].firsthdl);
   nga_wait_internal(&putn_handles[i].elementhdl);
@@ -853,6 +862,7 @@ void pnga_nbwait_notify(Integer *nbhandle)
   }
 
   putn_handles[i].orighdl = NULL;
+  GA_Internal_Threadsafe_Unlock();
 } /* pnga_nbwait_notify */
 
 /**
@@ -879,7 +889,9 @@ void pnga_put(Integer g_a, Integer *lo, Integer *hi, void *buf, Integer *ld)
 
 void pnga_nbput_field(Integer g_a, Integer *lo, Integer *hi, Integer foff, Integer fsize, void *buf, Integer *ld, Integer *nbhandle)
 {
-  ngai_put_common(g_a,lo,hi,buf,ld,foff, fsize, nbhandle); 
+  GA_Internal_Threadsafe_Lock();
+  ngai_put_common(g_a,lo,hi,buf,ld,foff, fsize, nbhandle);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 
@@ -892,7 +904,9 @@ void pnga_nbput_field(Integer g_a, Integer *lo, Integer *hi, Integer foff, Integ
 
 void pnga_put_field(Integer g_a, Integer *lo, Integer *hi, Integer foff, Integer fsize, void *buf, Integer *ld)
 {
-  ngai_put_common(g_a,lo,hi,buf,ld,foff, fsize, NULL); 
+  GA_Internal_Threadsafe_Lock();
+  ngai_put_common(g_a,lo,hi,buf,ld,foff, fsize, NULL);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 
@@ -1317,7 +1331,9 @@ void pnga_nbget(Integer g_a, Integer *lo, Integer *hi,
 void pnga_get_field(Integer g_a, Integer *lo, Integer *hi,Integer foff, Integer fsize,
               void *buf, Integer *ld)
 {
+  GA_Internal_Threadsafe_Lock();
   ngai_get_common(g_a,lo,hi,buf,ld,foff,fsize,(Integer *)NULL);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 #if HAVE_SYS_WEAK_ALIAS_PRAGMA
@@ -1327,7 +1343,9 @@ void pnga_get_field(Integer g_a, Integer *lo, Integer *hi,Integer foff, Integer
 void pnga_nbget_field(Integer g_a, Integer *lo, Integer *hi,Integer foff, Integer fsize,
                void *buf, Integer *ld, Integer *nbhandle)
 {
+  GA_Internal_Threadsafe_Lock();
   ngai_get_common(g_a,lo,hi,buf,ld,foff,fsize,nbhandle);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -2394,6 +2412,8 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
     Integer num_blocks=0;
     
     if (nv < 1) return;
+
+    GA_Internal_Threadsafe_Lock();
     
     ga_check_handleM(g_a, "ga_scatter");
     
@@ -2647,7 +2667,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
 
     free(buf2);
     free(buf1);
-
+    GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -2670,6 +2690,8 @@ Integer subscrpt[2];
 
   if (nv < 1) return;
 
+  GA_Internal_Threadsafe_Lock();
+
   ga_check_handleM(g_a, "ga_scatter_acc");
   
   GAstat.numsca++;
@@ -2718,7 +2740,7 @@ Integer subscrpt[2];
   }while (first< nv);
 
   pnga_free(int_ptr);
-
+  GA_Internal_Threadsafe_Unlock();
 }
 
 #define SCATTER -99
@@ -3583,6 +3605,8 @@ void pnga_gather(Integer g_a, void* v, void *subscript, Integer c_flag, Integer
 {
 
   if (nv < 1) return;
+
+  GA_Internal_Threadsafe_Lock();
   ga_check_handleM(g_a, "nga_gather");
   
   GAstat.numgat++;
@@ -3592,7 +3616,7 @@ void pnga_gather(Integer g_a, void* v, void *subscript, Integer c_flag, Integer
 #else
   gai_gatscat(GATHER,g_a,v,subscript,nv,&GAbytes.gattot,&GAbytes.gatloc, NULL);
 #endif
-
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -3607,6 +3631,8 @@ void pnga_scatter(Integer g_a, void* v, void *subscript, Integer c_flag, Integer
 {
 
   if (nv < 1) return;
+
+  GA_Internal_Threadsafe_Lock();
   ga_check_handleM(g_a, "nga_scatter");
   
   GAstat.numsca++;
@@ -3616,7 +3642,7 @@ void pnga_scatter(Integer g_a, void* v, void *subscript, Integer c_flag, Integer
 #else
   gai_gatscat(SCATTER,g_a,v,subscript,nv,&GAbytes.scatot,&GAbytes.scaloc, NULL);
 #endif
-
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -3632,6 +3658,8 @@ void pnga_scatter_acc(Integer g_a, void* v, void *subscript, Integer c_flag,
 {
 
   if (nv < 1) return;
+
+  GA_Internal_Threadsafe_Lock();
   ga_check_handleM(g_a, "nga_scatter_acc");
   
   GAstat.numsca++;
@@ -3643,7 +3671,7 @@ void pnga_scatter_acc(Integer g_a, void* v, void *subscript, Integer c_flag,
   gai_gatscat(SCATTER_ACC, g_a, v, subscript, nv, &GAbytes.scatot,
               &GAbytes.scaloc, alpha);
 #endif
-
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -3677,6 +3705,8 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
     
     if (nv < 1) return;
 
+    GA_Internal_Threadsafe_Lock();
+
     ga_check_handleM(g_a, "ga_gather");
     
     GAstat.numgat++;
@@ -3927,6 +3957,7 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
 
     free(buf2);
     free(buf1);
+    GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -4238,6 +4269,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
     }
   }
 
+  GA_Internal_Threadsafe_Lock();
   gai_iterator_init(g_a, lo, hi, &it_hdl);
   while (gai_iterator_next(&it_hdl, &proc, &blo, &bhi, &prem, ldrem)) {
       /* Correct ranges to account for skips in original patch. If no
@@ -4275,6 +4307,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -4315,6 +4348,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
     }
   }
 
+  GA_Internal_Threadsafe_Lock();
   gai_iterator_init(g_a, lo, hi, &it_hdl);
   while (gai_iterator_next(&it_hdl, &proc, &blo, &bhi, &prem, ldrem)) {
       /* Correct ranges to account for skips in original patch. If no
@@ -4351,6 +4385,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
+  GA_Internal_Threadsafe_Unlock();
 }
 
 /**
@@ -4403,6 +4438,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
     }
   }
 
+  GA_Internal_Threadsafe_Lock();
   gai_iterator_init(g_a, lo, hi, &it_hdl);
   while (gai_iterator_next(&it_hdl, &proc, &blo, &bhi, &prem, ldrem)) {
       /* Correct ranges to account for skips in original patch. If no
@@ -4441,4 +4477,5 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
           nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
+  GA_Internal_Threadsafe_Unlock();
 }
-- 
2.43.0


From cb442911e03a0c06ecf3a0786ae624e00e1c2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 37/48] fix: TCGMSG asynchronous sends were never waited for,
 and its blocking calls stopped the shared counter on mpi-ts

---
 comex/src-armci/message.c        | 35 ++++++++++++++++++++++++++++++++
 tcgmsg/tcgmsg-mpi/collect.c      |  6 ++++++
 tcgmsg/tcgmsg-mpi/misc.c         | 26 ++++++++++++++++++++++++
 tcgmsg/tcgmsg-mpi/nxtval-armci.c |  1 +
 tcgmsg/tcgmsg-mpi/p2p.c          | 25 ++++++++++++++++++-----
 tcgmsg/tcgmsg-mpi/tcgmsgP.h      |  5 +++++
 6 files changed, 93 insertions(+), 5 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index e405730..b2fed8c 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -463,6 +463,41 @@ int armci_msg_rcvany(int tag, void* buffer, int len, int *msglen)
 }
 
 
+/* undocumented, but used in TCGMSG: complete a message while serving the
+ * one-sided requests of other processes */
+int armci_msg_wait(MPI_Request *request, MPI_Status *status)
+{
+#if COMEX_NETWORK_MPI_TS
+    int flag = 0;
+    int rc;
+
+    do {
+        rc = MPI_Test(request, &flag, status);
+        comex_make_progress();
+    } while (MPI_SUCCESS == rc && !flag);
+
+    return rc;
+#else
+    return MPI_Wait(request, status);
+#endif
+}
+
+
+/* undocumented, but used in TCGMSG: serve the one-sided requests of other
+ * processes, until all of them are here if wait is set */
+void armci_msg_serve(int wait)
+{
+#if COMEX_NETWORK_MPI_TS
+    if (wait) {
+        comex_barrier(COMEX_GROUP_WORLD);
+    }
+    else {
+        comex_make_progress();
+    }
+#endif
+}
+
+
 void armci_msg_reduce(void *x, int n, char *op, int type)
 {
     do_gop(x, n, op, type, get_default_group());
diff --git a/tcgmsg/tcgmsg-mpi/collect.c b/tcgmsg/tcgmsg-mpi/collect.c
index 4c20743..84a2d5d 100644
--- a/tcgmsg/tcgmsg-mpi/collect.c
+++ b/tcgmsg/tcgmsg-mpi/collect.c
@@ -33,6 +33,8 @@ void IGOP_(long *ptype, long *x, long *pn, char *op, int oplen)
 
     buflen = (nleft-1) / nbuf + 1;
 
+    tcgmsg_enter();
+
     if (strncmp(op,"abs",3) == 0) {
         n = *pn;
         while(n--) {
@@ -104,6 +106,8 @@ void DGOP_(long *ptype, double *x, long *pn, char *op, int oplen)
 
     buflen = (nleft-1) / nbuf + 1;
 
+    tcgmsg_enter();
+
     if (strncmp(op,"abs",3) == 0) {
         n = *pn;
         while(n--) {
@@ -170,6 +174,7 @@ void SYNCH_(long *type)
         PBEGINF_();
     }
 /* #endif */
+    tcgmsg_enter();
     MPI_Barrier(TCGMSG_Comm);
 }
 
@@ -183,5 +188,6 @@ void BRDCST_(long *type, void *buf, long *lenbuf, long *originator)
     /*  hope that MPI int is large enough to store value in lenbuf */
     int count = (int)*lenbuf, root = (int)*originator;
 
+    tcgmsg_enter();
     MPI_Bcast(buf, count, MPI_CHAR, root, TCGMSG_Comm);
 }
diff --git a/tcgmsg/tcgmsg-mpi/misc.c b/tcgmsg/tcgmsg-mpi/misc.c
index 14d26bb..3f4c35d 100644
--- a/tcgmsg/tcgmsg-mpi/misc.c
+++ b/tcgmsg/tcgmsg-mpi/misc.c
@@ -23,6 +23,32 @@ static int SR_initialized=0;
 extern int nxtval_installed;
 
 extern MPI_Comm armci_group_comm(ARMCI_Group *group);
+extern int armci_msg_wait(MPI_Request *request, MPI_Status *status);
+extern void armci_msg_serve(int wait);
+
+
+/**
+ * wait for a message while serving the one-sided requests of other processes
+ */
+int tcgmsg_wait(MPI_Request *request, MPI_Status *status)
+{
+    return nxtval_installed ?
+        armci_msg_wait(request, status) : MPI_Wait(request, status);
+}
+
+
+/**
+ * called before a blocking collective operation: NXTVAL of a process that
+ * comes later must be served
+ */
+void tcgmsg_enter()
+{
+    if (nxtval_installed) {
+        armci_msg_serve(1);
+    }
+}
+
+
 
 long TCGREADY_()
 {
diff --git a/tcgmsg/tcgmsg-mpi/nxtval-armci.c b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
index 553247c..bc5b60f 100644
--- a/tcgmsg/tcgmsg-mpi/nxtval-armci.c
+++ b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
@@ -51,6 +51,7 @@ long NXTVAL_(long *mproc)
         }
 
         if (*mproc < 0) {
+            tcgmsg_enter();
             rc=MPI_Barrier(TCGMSG_Comm); 
             if(rc!=MPI_SUCCESS) {
                 Error("nxtval: barrier failed",0);
diff --git a/tcgmsg/tcgmsg-mpi/p2p.c b/tcgmsg/tcgmsg-mpi/p2p.c
index 017f521..c25300d 100644
--- a/tcgmsg/tcgmsg-mpi/p2p.c
+++ b/tcgmsg/tcgmsg-mpi/p2p.c
@@ -6,6 +6,9 @@
 
 #include "tcgmsgP.h"
 
+extern int nxtval_installed;
+extern void armci_msg_serve(int wait);
+
 /************************ nonblocking message list ********************/
 #define MAX_Q_LEN 1024         /* Maximum no. of outstanding messages */
 static struct msg_q_struct{
@@ -33,8 +36,13 @@ void SND_(long *type, void *buf, long *lenbuf, long *node, long *sync)
     }
 
     if (*sync){
-        ierr = MPI_Send(buf, (int)*lenbuf, MPI_CHAR, (int)*node, ttype,
-                TCGMSG_Comm);
+        MPI_Request request;
+        MPI_Status status;
+
+        ierr = MPI_Isend(buf, (int)*lenbuf, MPI_CHAR, (int)*node, ttype,
+                TCGMSG_Comm, &request);
+        tcgmsg_test_statusM("SND_:", ierr);
+        ierr = tcgmsg_wait(&request, &status);
         tcgmsg_test_statusM("SND_:", ierr);
     }else{
         if (n_in_msg_q >= MAX_Q_LEN) {
@@ -48,6 +56,7 @@ void SND_(long *type, void *buf, long *lenbuf, long *node, long *sync)
         msg_q[n_in_msg_q].type   = *type;
         msg_q[n_in_msg_q].lenbuf = *lenbuf;
         msg_q[n_in_msg_q].snd = 1;
+        n_in_msg_q++;
     }
 }
 
@@ -89,8 +98,10 @@ void RCV_(long *type, void *buf, long *lenbuf, long *lenmes, long *nodeselect, l
         msg_q[n_in_msg_q].snd = 0;
         n_in_msg_q++;
     } else {
-        ierr = MPI_Recv(buf, count, MPI_CHAR, node, (int)*type, TCGMSG_Comm,
-                &status);
+        ierr = MPI_Irecv(buf, count, MPI_CHAR, node, (int)*type, TCGMSG_Comm,
+                &request);
+        tcgmsg_test_statusM("RCV_:", ierr);
+        ierr = tcgmsg_wait(&request, &status);
         tcgmsg_test_statusM("RCV_:", ierr);
         ierr = MPI_Get_count(&status, MPI_CHAR, &count);
         tcgmsg_test_statusM("RCV:Get_count:", ierr);
@@ -111,7 +122,7 @@ void WAITCOM_(long *nodesel)
                           NODEID_(), msg_q[i].node, i);
             (void) fflush(stdout);
         }
-        ierr = MPI_Wait(&msg_q[i].request, &status);
+        ierr = tcgmsg_wait(&msg_q[i].request, &status);
         tcgmsg_test_statusM("WAITCOM:", ierr);
     }
     n_in_msg_q = 0;
@@ -123,6 +134,10 @@ long PROBE_(long *type, long *node)
     int flag, source, ierr ;
     MPI_Status status;
 
+    if (nxtval_installed) {
+        armci_msg_serve(0);
+    }
+
     source = (*node < 0) ? MPI_ANY_SOURCE : (int) *node;
     ierr   = MPI_Iprobe(source, (int)*type, TCGMSG_Comm, &flag, &status);
     tcgmsg_test_statusM("PROBE:", ierr);
diff --git a/tcgmsg/tcgmsg-mpi/tcgmsgP.h b/tcgmsg/tcgmsg-mpi/tcgmsgP.h
index f618797..fef07e6 100644
--- a/tcgmsg/tcgmsg-mpi/tcgmsgP.h
+++ b/tcgmsg/tcgmsg-mpi/tcgmsgP.h
@@ -68,6 +68,11 @@ extern char tcgmsg_err_string[ERR_STR_LEN];
   }\
 }
 
+/* complete messages and enter collective operations without blocking the
+ * one-sided requests (NXTVAL) of other processes */
+extern int  tcgmsg_wait(MPI_Request *request, MPI_Status *status);
+extern void tcgmsg_enter(void);
+
 extern void finalize_nxtval();
 extern void install_nxtval(int *argc, char **argv[]);
 
-- 
2.43.0


From 76c0d1c3449d1b8ce0843e91e97afcc81759934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:20 +0000
Subject: [PATCH 38/48] fix: 64-bit gather, scatter and scatter-accumulate read
 the subscripts as 32-bit integers

---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 4c27342..ad511b9 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From 1d14f04f409c1bbad6ef0c6a5eab055dfcfd65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:14 +0000
Subject: [PATCH 39/48] fix: copies from an array to one on a smaller group
 reshaped wrongly and stored nothing, copies to one on a larger group ended
 before the data had arrived

---
 global/src/global.nalg.c   |   2 +
 global/src/global.npatch.c | 125 ++++++++++++++-----------------------
 2 files changed, 50 insertions(+), 77 deletions(-)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 350089d..77db4f5 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -381,6 +381,8 @@ _iterator_hdl hdl;
 
    if(local_sync_end) {
      if (anproc <= bnproc) {
+       /* g_b may have parts on processes outside the group of g_a */
+       if (a_grp != b_grp) ARMCI_AllFence();
        pnga_pgroup_sync(a_grp);
      } else if (a_grp == pnga_pgroup_get_world() &&
                 b_grp == pnga_pgroup_get_world()) {
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 55aac5e..8b7e545 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -415,112 +415,82 @@ void pnga_copy_patch(char *trans,
           pnga_free(src_idx_ptr);
           pnga_free(tmp_ptr);
         } else {
+          nelem = 1;
+          for (i=0; i<bndim; i++) nelem *= (his[i] - los[i] + 1);
           tmp_ptr = pnga_malloc(nelem, atype, "v");
           src_idx_ptr = (Integer*) pnga_malloc((andim*nelem), MT_F_INT, "si");
           dst_idx_ptr = (Integer*) pnga_malloc((bndim*nelem), MT_F_INT, "di");
 
-          /* calculate the destination indices */
-
-          /* given los and his, find indices for each elements
-           * bvalue: starting index in each dimension
-           * bunit: stride in each dimension
+          /* given los and his, find the indices in g_b of each element
+           * that I own
            */
-          for (i=0; i<andim; i++) {
-            bvalue[i] = los[i];
-            if (i == 0) bunit[i] = 1;
-            else bunit[i] = bunit[i-1] * (his[i-1] - los[i-1] + 1);
-          }
-
-          /* destination indices */
+          for (j=0; j<bndim; j++) bvalue[j] = los[j];
           for (i=0; i<nelem; i++) {
-            for (j=0; j<bndim; j++){
-              src_idx_ptr[i*bndim+j] = bvalue[j];
-              /* if the next element is the first element in
-               * one dimension, increment the index by 1
-               */
-              if (((i+1) % bunit[j]) == 0) bvalue[j]++;
-              /* if the index becomes larger than the upper
-               * bound in one dimension, reset it.
-               */
-              if(bvalue[j] > his[j]) bvalue[j] = los[j];
+            for (j=0; j<bndim; j++) dst_idx_ptr[i*bndim+j] = bvalue[j];
+            for (j=0; j<bndim; j++) {
+              if (++bvalue[j] <= his[j]) break;
+              bvalue[j] = los[j];
             }
           }
 
-          /* index factor: reshaping without transpose */
+          /* index factor: position of an element in the patch of g_b */
           factor_idx1[0] = 1;
           for (j=1; j<bndim; j++) 
             factor_idx1[j] = factor_idx1[j-1] * bld[j-1];
 
-          /* index factor: reshaping with transpose */
-          factor_idx2[bndim-1] = 1;
-          for (j=(bndim-1)-1; j>=0; j--)
-            factor_idx2[j] = factor_idx2[j+1] * bld[j+1];
-
-          /* data factor */
-          factor_data[0] = 1;
-          for (j=1; j<bndim; j++) 
-            factor_data[j] = factor_data[j-1] * ld[j-1];
-
-          /* destination indices */
+          /* find the indices in g_a of the element that goes there */
           for(i=0; i<nelem; i++) {
-            /* linearize the n-dimensional indices to one dimension */
             idx = 0;
-            if (*trans == 'n' || *trans == 'N')
-              for (j=0; j<andim; j++) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx1[j];
-            else
+            for (j=0; j<bndim; j++) 
+              idx += (dst_idx_ptr[i*bndim+j] - blo[j]) * factor_idx1[j];
+            if (*trans == 'n' || *trans == 'N') {
+              for (j=0; j<andim; j++) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
+            } else {
               /* if the patch needs to be transposed, reverse
                * the indices: (i, j, ...) -> (..., j, i)
                */
-              for (j=(andim-1); j>=0; j--) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx2[j];
-
-            /* convert the one dimensional index to n-dimensional
-             * indices of destination
-             */
-            for (j=0; j<andim; j++) {
-              dst_idx_ptr[i*bndim+j] = idx % ald[j] + alo[j]; 
-              idx /= ald[j];
+              for (j=andim-1; j>=0; j--) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
             }
+          }
 
-            /* move the data block to create a new block */
-            /* linearize the data indices */
+          /* fetch the elements and store them in my part of g_b */
+          pnga_gather(g_a, tmp_ptr, src_idx_ptr, 0, nelem);
+          factor_data[0] = 1;
+          for (j=1; j<bndim; j++) 
+            factor_data[j] = factor_data[j-1] * ld[j-1];
+          for(i=0; i<nelem; i++) {
             idx = 0;
             for (j=0; j<bndim; j++) 
-              idx += (src_idx_ptr[i*bndim+j]) * factor_data[j];
-
-            /* adjust the position
-             * base: starting address of the first element */
-            idx -= base;
-
-            /* move the element to the temporary location */
+              idx += (dst_idx_ptr[i*bndim+j] - los[j]) * factor_data[j];
             switch(atype) {
-              case C_DBL: ((double*)tmp_ptr)[i] =
-                          ((double*)src_data_ptr)[idx]; 
+              case C_DBL: ((double*)src_data_ptr)[idx] =
+                          ((double*)tmp_ptr)[i]; 
                           break;
-              case C_INT:
-                          ((int *)tmp_ptr)[i] = ((int *)src_data_ptr)[idx];
-                          break;
-              case C_DCPL:((DoubleComplex *)tmp_ptr)[i] =
-                          ((DoubleComplex *)src_data_ptr)[idx];
+              case C_INT: ((int *)src_data_ptr)[idx] = ((int *)tmp_ptr)[i];
                           break;
-              case C_SCPL:((SingleComplex *)tmp_ptr)[i] =
-                          ((SingleComplex *)src_data_ptr)[idx];
+              case C_DCPL:((DoubleComplex *)src_data_ptr)[idx] =
+                          ((DoubleComplex *)tmp_ptr)[i];
                           break;
-              case C_FLOAT: ((float *)tmp_ptr)[i] =
-                            ((float *)src_data_ptr)[idx]; 
+              case C_SCPL:((SingleComplex *)src_data_ptr)[idx] =
+                          ((SingleComplex *)tmp_ptr)[i];
                           break;
-              case C_LONG: ((long *)tmp_ptr)[i] =
-                           ((long *)src_data_ptr)[idx];     
+              case C_FLOAT: ((float *)src_data_ptr)[idx] =
+                            ((float *)tmp_ptr)[i]; 
+                          break;     
+              case C_LONG: ((long *)src_data_ptr)[idx] =
+                           ((long *)tmp_ptr)[i];     
                           break;
-              case C_LONGLONG: ((long long *)tmp_ptr)[i] =
-                           ((long long *)src_data_ptr)[idx];     
+              case C_LONGLONG: ((long long *)src_data_ptr)[idx] =
+                           ((long long *)tmp_ptr)[i];     
             }
           }
-          pnga_release(g_b, los, his);
-          pnga_gather(g_a, tmp_ptr, dst_idx_ptr, 0, nelem);
+          pnga_release_update(g_b, los, his);
           pnga_free(dst_idx_ptr);
           pnga_free(src_idx_ptr);
           pnga_free(tmp_ptr);
@@ -921,9 +891,10 @@ void pnga_copy_patch(char *trans,
       }
     }
   }
-  /* ARMCI_AllFence(); */
   if(local_sync_end) {
     if (anproc <= bnproc) {
+      /* g_b may have parts on processes outside the group of g_a */
+      if (a_grp != b_grp) ARMCI_AllFence();
       pnga_pgroup_sync(a_grp);
     } else if (a_grp == pnga_pgroup_get_world() &&
         b_grp == pnga_pgroup_get_world()) {
-- 
2.43.0


From 1b298d263e3dba2d42a4b4443995feed2b846c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 40/48] fix: two-dimensional gather and scatter: restricted
 group arrays addressed the wrong process, scatters were not recorded for the
 fence

---
 global/src/onesided.c | 67 +++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 221d659..9cbc9ed 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2355,11 +2355,10 @@ int rc=0;
   desc.dst_ptr_array = ptr_dst;
   desc.ptr_array_len = (int)nv;
 
-  if(GA_fence_set)fence_array[proc]=1;
-
   if (p_handle >= 0) {
     proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
   }
+  if(GA_fence_set)fence_array[proc]=1;
   if(alpha != NULL) {
     int optype=-1;
     if(type==C_DBL) optype= ARMCI_ACC_DBL;
@@ -2592,14 +2591,13 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-        }
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0)
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2617,6 +2615,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2638,6 +2637,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2660,6 +2660,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set)fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2936,13 +2937,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.dst_ptr_array = ptr_dst[k];
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             rc=ARMCI_GetV(&desc, 1, (int)iproc);
             if(rc) pnga_error("gather failed in armci",rc);
           }
@@ -3064,13 +3063,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             if(GA_fence_set) fence_array[iproc]=1;
 
             rc=ARMCI_PutV(&desc, 1, (int)iproc);
@@ -3202,13 +3199,11 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
             desc.dst_ptr_array = ptr_dst[k];
             desc.ptr_array_len = (int)nelem[aproc[k]];
 
-            if (p_handle < 0) {
-              iproc = aproc[k];
-              if (GA[handle].num_rstrctd > 0)
-                iproc = GA[handle].rstrctd_list[iproc];
-            } else {
-              iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
-            }
+            iproc = aproc[k];
+            if (GA[handle].num_rstrctd > 0)
+              iproc = GA[handle].rstrctd_list[iproc];
+            if (p_handle >= 0)
+              iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
             if(GA_fence_set) fence_array[iproc]=1;
 
             if(alpha != NULL) {
@@ -3886,13 +3881,11 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]]; 
-        }
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0)
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
-- 
2.43.0


From 1eda16705d78ae07ab0561002303df4a35da011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 41/48] fix: memory allocator: inquiries once one side has
 outgrown the partition, freeing part of a block after the alignment changed,
 failed allocations keeping their block

---
 ma/ma.c | 67 ++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..38e885a 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -176,7 +176,7 @@ private void list_insert_ordered(AD *ad, AD **list, Boolean (*pred)(AD *, AD *))
 private Boolean list_member(AD *ad, AD *list);
 private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
-private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem);
+private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem, Pointer limit);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
@@ -1465,13 +1465,14 @@ private void list_verify(list, block_type, preamble, blocks,
 /*
  * Return the maximum number of datatype elements that can currently be
  * accomodated in a heap fragment (a block on the heap free list) entirely
- * within the heap region, or 0 if this number is less than min_nelem.
+ * below the given limit, or 0 if this number is less than min_nelem.
  */
 /* ------------------------------------------------------------------------- */
 
-private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
+private Integer ma_max_heap_frag_nelem(datatype, min_nelem, limit)
     Integer    datatype;    /* of elements */
     Integer    min_nelem;    /* for fragment to be considered */
+    Pointer    limit;        /* end of region to consider */
 {
     ulongi    min_bytes;    /* for fragment to be considered */
     AD        *ad;        /* traversal pointer */
@@ -1489,20 +1490,20 @@ private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
         /*
          * There are 3 cases to consider:
          *
-         * (a) fragment is outside heap region
-         * (b) fragment straddles partition between heap and stack regions
-         * (c) fragment is inside heap region
+         * (a) fragment is outside the region to consider
+         * (b) fragment straddles the end of that region
+         * (c) fragment is inside that region
          */
 
-        if ((Pointer)ad >= ma_partition)
+        if ((Pointer)ad >= limit)
         {
             /* case (a): reject */
             continue;
         }
-        else if (((Pointer)ad + ad->nbytes) >= ma_partition)
+        else if (((Pointer)ad + ad->nbytes) >= limit)
         {
-            /* case (b): truncate fragment at partition */
-            nbytes = (ulongi)(ma_partition - (Pointer)ad);
+            /* case (b): truncate fragment at the limit */
+            nbytes = (ulongi)(limit - (Pointer)ad);
         }
         else
         {
@@ -2075,8 +2076,16 @@ public Boolean MA_allocate_heap(
 
     /* convert AD to memhandle */
     if ((*memhandle = ma_table_allocate((TableData)ad)) == TABLE_HANDLE_NONE)
-        /* failure */
+    {
+        /* failure; give the block back */
+#ifdef STATS
+        ma_stats.hblocks--;
+        ma_stats.hbytes -= ad->nbytes;
+#endif /* STATS */
+        (void)list_delete(ad, &ma_hused);
+        block_free_heap(ad);
         return MA_FALSE;
+    }
     else
         /* success */
         return MA_TRUE;
@@ -2198,7 +2207,6 @@ public Boolean MA_free_heap_piece(
     AD        *ad;        /* AD for memhandle */
     AD        *ad_reclaim;    /* AD for data returned */
     AR        ar;        /* AR for data kept */
-    Pointer    client_space;    /* location of client_space */
     ulongi    nbytes;        /* length of block for data kept */
 
 #ifdef STATS
@@ -2237,8 +2245,10 @@ public Boolean MA_free_heap_piece(
     ar.datatype = ad->datatype;
     ar.nelem = ad->nelem - nelem;
 
-    /* perform trial allocation to determine size */
-    balloc_after(&ar, (Pointer)ad, &client_space, &nbytes);
+    /* determine size of the block that holds the data kept */
+    nbytes = (ulongi)(ad->client_space - (Pointer)ad)
+        + ar.nelem * ma_sizeof[ar.datatype] + sizeof(Guard);
+    nbytes = mai_round((size_t)nbytes, (ulongi)ALIGNMENT);
 
     if (nbytes < ad->nbytes)
     {
@@ -2742,7 +2752,7 @@ public Integer MA_inquire_heap(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2806,14 +2816,14 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
      */
 
     /* try space between heap and partition or heap and stack */
-    gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    gap_length = (size_t)(min(ma_partition, ma_sp) - ma_hp);
+    if (min(ma_partition, ma_sp) > ma_hp)
         nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2884,7 +2894,7 @@ public Integer MA_inquire_heap_no_partition(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_eos);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2945,8 +2955,7 @@ public Integer MA_inquire_stack(Integer datatype)
 
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
-    /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
+    if (ma_sp > ma_partition)
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -3012,9 +3021,9 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
      */
 
     /* try space between partition and stack or heap and stack */
-    gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    gap_length = (size_t)(ma_sp - max(ma_partition, ma_hp));
+    if (ma_sp > max(ma_partition, ma_hp))
+        nelem_gap = ma_nelem(max(ma_partition, ma_hp), (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
@@ -3354,8 +3363,16 @@ public Boolean MA_push_stack(
 
     /* convert AD to memhandle */
     if ((*memhandle = ma_table_allocate((TableData)ad)) == TABLE_HANDLE_NONE)
-        /* failure */
+    {
+        /* failure; give the block back */
+#ifdef STATS
+        ma_stats.sblocks--;
+        ma_stats.sbytes -= ad->nbytes;
+#endif /* STATS */
+        (void)list_delete(ad, &ma_sused);
+        ma_sp += ad->nbytes;
         return MA_FALSE;
+    }
     else
         /* success */
         return MA_TRUE;
-- 
2.43.0


From d20804378f79539173d7f9d2dc4cd64a0b3104d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 42/48] fix: mirrored arrays: randomize and fill wrote the
 first node's copy, merge into a distributed array refused the last index and
 accepted the zeroth

---
 global/src/base.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index f5e9a51..fae6ed1 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4297,7 +4297,7 @@ void pnga_randomize(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
@@ -4398,7 +4398,7 @@ void pnga_fill(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
@@ -5539,13 +5539,13 @@ void pnga_merge_distr_patch(Integer g_a, Integer *alo, Integer *ahi,
 
   for (i=0; i<adim; i++) {
     idim = (Integer)GA[a_handle].dims[i];
-    if (alo[i] < 0 || alo[i] >= idim || ahi[i] < 0 || ahi[i] >= idim ||
+    if (alo[i] < 1 || alo[i] > idim || ahi[i] < 1 || ahi[i] > idim ||
         alo[i] > ahi[i])
       pnga_error("Invalid patch index on mirrored GA",0);
   }
   for (i=0; i<bdim; i++) {
     idim = GA[b_handle].dims[i];
-    if (blo[i] < 0 || blo[i] >= idim || bhi[i] < 0 || bhi[i] >= idim ||
+    if (blo[i] < 1 || blo[i] > idim || bhi[i] < 1 || bhi[i] > idim ||
         blo[i] > bhi[i])
       pnga_error("Invalid patch index on distributed GA",0);
   }
-- 
2.43.0


From 7f2189422dd3cbbd0bd0c5da197149937cc0e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 43/48] fix: elementwise operations and add_patch used the
 world rank as the owner in the array's group, leaving mirrored copies
 unchanged

---
 global/src/elem_alg.c      | 1 +
 global/src/global.npatch.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index cf2fd3b..04c5547 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1850,6 +1850,7 @@ int op; /* operation to be perform between g_a and g_b */
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if(local_sync_begin)pnga_sync();
   pnga_check_handle(g_a, "gai_elem2_patch_");
+  me = pnga_pgroup_nodeid(pnga_get_pgroup(g_c));
 
   pnga_inquire(g_a, &atype, &andim, adims);
   pnga_inquire(g_b, &btype, &bndim, bdims);
diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 8b7e545..b4227e2 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -2639,6 +2639,7 @@ void *alpha, *beta;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if(local_sync_begin)pnga_sync();
 
+  me = pnga_pgroup_nodeid(pnga_get_pgroup(g_c));
 
   pnga_inquire(g_a, &atype, &andim, adims);
   pnga_inquire(g_b, &btype, &bndim, bdims);
-- 
2.43.0


From cc0cb387c0c764482334b8ea7ffcae2f0a70a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 44/48] fix: a refused overlay freed memory of arrays long
 gone, the duplicate of an overlay never freed its own

---
 global/src/base.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index fae6ed1..7c0f96c 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3163,6 +3163,8 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
   if (status) {
     status = TRUE;
   } else {
+    /* no memory belongs to this array */
+    GA[ga_handle].ptr[grp_me] = NULL;
     pnga_destroy(g_a);
     status = FALSE;
   }
@@ -3840,6 +3842,9 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   GA[ga_handle].cache = NULL;
   GA[ga_handle].cache_head = NULL;
 
+  /*** the duplicate of an overlay has memory of its own ***/
+  GA[ga_handle].overlay = 0;
+
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
   GA[ga_handle].rank_rstrctd = NULL;
-- 
2.43.0


From be1c223ef7a1b25d799afef0223c2572c9057fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 45/48] fix: GA_Assemble_duplicate shared the process lists of
 restricted arrays with the original and counted the memory header as data

---
 global/src/base.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 7c0f96c..4db22e8 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3986,6 +3986,16 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       GA[ga_handle].ptr = save_ptr;
       GA[ga_handle].cache = NULL;
       GA[ga_handle].cache_head = NULL;
+      GA[ga_handle].overlay = 0;
+      /* copy info for restricted arrays, if relevant */
+      GA[ga_handle].rstrctd_list = NULL;
+      GA[ga_handle].rank_rstrctd = NULL;
+      GA[ga_handle].num_rstrctd = 0;
+      if (GA[GA_OFFSET + g_a].num_rstrctd > 0) {
+        GA[ga_handle].num_rstrctd = GA[GA_OFFSET + g_a].num_rstrctd;
+        pnga_set_restricted(g_b, GA[GA_OFFSET + g_a].rstrctd_list,
+            GA[GA_OFFSET + g_a].num_rstrctd);
+      }
       if (maplen > 0) {
         GA[ga_handle].mapc = (C_Integer*)malloc((maplen+1)*sizeof(C_Integer*));
         for(i=0;i<maplen; i++)GA[ga_handle].mapc[i] = GA[GA_OFFSET+ g_a].mapc[i];
@@ -3995,7 +4005,9 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       /* get ptrs and datatype from user memory */
       gam_checktype(pnga_type_f2c(info->type));
       GA[ga_handle].type = pnga_type_f2c(info->type);
-      GA[ga_handle].size = (C_Long)info->size;
+      /* the header in front of the data is not part of the array */
+      GA[ga_handle].size = (C_Long)(info->size - extra);
+      if(GA_memory_limited) GA_total_memory += extra;
       GA[ga_handle].id = info->id;
       memcpy(GA[ga_handle].ptr,ptr_arr,(size_t)GAnproc*sizeof(char**));
 
-- 
2.43.0


From 762350136ddc8b1a47dccae419cb55ded9cc52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 46/48] fix: periodic access to patches more than one period
 below the array was not moved into the array

---
 global/src/global.periodic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..ee8fcd8 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -99,7 +99,7 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
       }
       if (hi[i] < 1) {
         rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
+        id = (-hi[i]-rmndr)/dims[i]+1; 
         lo[i] = lo[i] + id*dims[i];
         hi[i] = hi[i] + id*dims[i];
         if (id != 0) {
-- 
2.43.0


From af900b5355d568228391fdf87da1147ab749f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 47/48] fix: gather and scatter on two-dimensional arrays
 indexed the owner list out of bounds for the statistics

---
 global/src/onesided.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 9cbc9ed..6ed3e83 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2552,8 +2552,6 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
     /* determine limit for message size --  v,i, & j will travel together */
     item_size = GAsizeofM(type);
     GAbytes.scatot += (double)item_size*nv ;
-    iproc = owner[GAme];
-    GAbytes.scaloc += (double)item_size* nelem[iproc];
     ptr_src[0] = ptr_org; ptr_dst[0] = ptr_org + nv;
     for(k=1; k<naproc; k++) {
         ptr_src[k] = ptr_src[k-1] + nelem[aproc[k-1]];
@@ -2598,6 +2596,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
 
         if(GA_fence_set)fence_array[iproc]=1;
+        if(iproc==GAme) GAbytes.scaloc += (double)item_size*nelem[aproc[k]];
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2616,6 +2615,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         }
 
         if(GA_fence_set)fence_array[iproc]=1;
+        if(iproc==GAme) GAbytes.scaloc += (double)item_size*nelem[aproc[k]];
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2638,6 +2638,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         }
 
         if(GA_fence_set)fence_array[iproc]=1;
+        if(iproc==GAme) GAbytes.scaloc += (double)item_size*nelem[aproc[k]];
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2661,6 +2662,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         }
 
         if(GA_fence_set)fence_array[iproc]=1;
+        if(iproc==GAme) GAbytes.scaloc += (double)item_size*nelem[aproc[k]];
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -3839,10 +3841,6 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
     
     item_size = GA[GA_OFFSET + g_a].elemsize;
     GAbytes.gattot += (double)item_size*nv;
-    /*This stuff is probably completely wrong. Doesn't affect performance,
-     * just statistics. */
-    iproc = owner[GAme];
-    GAbytes.gatloc += (double)item_size * nelem[iproc];
 
     ptr_src[0] = ptr_org; ptr_dst[0] = ptr_org + nv;
     for(k=1; k<naproc; k++) {
@@ -3886,6 +3884,7 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
           iproc = GA[handle].rstrctd_list[iproc];
         if (p_handle >= 0)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
+        if(iproc==GAme) GAbytes.gatloc += (double)item_size*nelem[aproc[k]];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
@@ -3902,6 +3901,7 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         if (p_handle >= 0) {
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc]; 
         }
+        if(iproc==GAme) GAbytes.gatloc += (double)item_size*nelem[aproc[k]];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
@@ -3922,6 +3922,7 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         if (p_handle >= 0) {
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc]; 
         }
+        if(iproc==GAme) GAbytes.gatloc += (double)item_size*nelem[aproc[k]];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
@@ -3943,6 +3944,7 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         if (p_handle >= 0) {
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc]; 
         }
+        if(iproc==GAme) GAbytes.gatloc += (double)item_size*nelem[aproc[k]];
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
       }
-- 
2.43.0


From 7a6a574fc705a58f90e46d00069a1289b12ae027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 48/48] fix: put-based ghost cell updates sent the wrong layer
 in the positive direction unless the ghost width was two

---
 global/src/ghosts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index ede61d2..68f5851 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -1250,7 +1250,7 @@ logical pnga_update3_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -2689,7 +2689,7 @@ logical pnga_update55_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -3493,7 +3493,7 @@ logical pnga_set_update5_info(Integer g_a)
             if (i == idx) {
               plo_rem[i] = 0;
               phi_rem[i] = width[i] - 1;
-              plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+              plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
               /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
             } else {
               plo_rem[i] = width[i];
-- 
2.43.0

