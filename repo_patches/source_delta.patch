From b4bdd952bb95b296f77653553595211682da2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 01/85] fix: scale the overlap offset by the element size when
 merging cached 1-D regions

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..e0be6b8 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -654,7 +654,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From 1cb68437643c03a25576bea43f87ea300d218a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 02/85] fix: update every cached region a write overlaps, not
 only up to the first containing one

---
 .../pdc_server_region/pdc_server_region_cache.c       | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index e0be6b8..f5c0b1f 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -560,23 +560,20 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                // Every cached region that overlaps has to be updated, also after one that contains the input.
+                flag |= detect_region_contained(
+                    region_info->offset, region_info->size, region_cache_iter->region_cache_info->offset,
+                    region_cache_iter->region_cache_info->size, region_info->ndim);
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From 67f9bf6553e77cc168011ce3d737059b85dfa235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 03/85] fix: a 1-D write into the tail of a larger stored
 region is not an error

---
 src/server/pdc_server_region/pdc_server_data.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..643517f 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,13 +4789,6 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
-                    printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
-                    ret_value = -1;
-                    goto done;
-                }
-
                 lseek(region->fd, overlap_region->offset + pos, SEEK_SET);
 #ifdef PDC_TIMING
                 start_posix = MPI_Wtime();
-- 
2.43.0


From ccb203fa97d9d96d92b10fef22cedd6c07f5d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 04/85] fix: a 2-D/3-D read fills the local region with the
 same layout a write takes it from

---
 src/api/pdc_region/pdc_region_transfer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..7b3c3bc 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1542,7 +1542,7 @@ release_region_buffer(char *buf, uint64_t *obj_dims, int local_ndim, uint64_t *l
         if (access_type == PDC_READ) {
             ptr = new_buf;
             for (i = 0; i < local_size[0]; ++i) {
-                memcpy(buf + ((local_offset[0] + i) * obj_dims[1] + local_offset[1]) * unit, ptr,
+                memcpy(buf + ((local_offset[0] + i) * local_size[1] + local_offset[1]) * unit, ptr,
                        local_size[1] * unit);
                 ptr += local_size[1] * unit;
             }
@@ -1553,8 +1553,8 @@ release_region_buffer(char *buf, uint64_t *obj_dims, int local_ndim, uint64_t *l
             ptr = new_buf;
             for (i = 0; i < local_size[0]; ++i) {
                 for (j = 0; j < local_size[1]; ++j) {
-                    memcpy(buf + ((local_offset[0] + i) * obj_dims[1] * obj_dims[2] +
-                                  (local_offset[1] + j) * obj_dims[2] + local_offset[2]) *
+                    memcpy(buf + ((local_offset[0] + i) * local_size[1] * local_size[2] +
+                                  (local_offset[1] + j) * local_size[2] + local_offset[2]) *
                                      unit,
                            ptr, local_size[2] * unit);
                     ptr += local_size[2] * unit;
-- 
2.43.0


From 3495aba416c340992013b3c6f6b9ade89b466e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 05/85] fix: transfers that overlap no written region of a
 dynamic/local partitioned object complete

---
 src/api/pdc_region/pdc_region_transfer.c      | 76 +++++++++++--------
 ...dc_server_region_transfer_metadata_query.c |  6 +-
 2 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7b3c3bc..105befd 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -631,9 +631,24 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
     FUNC_LEAVE(ret_value);
 }
 
+/**
+ * Prepare a request for the given number of data servers. The number is 0 for a request that does not overlap
+ * with anything written so far: there is nothing to transfer for it.
+ */
+static void
+set_obj_servers(pdc_transfer_request *transfer_request, int n_obj_servers)
+{
+    transfer_request->n_obj_servers  = n_obj_servers;
+    transfer_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * n_obj_servers);
+    transfer_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * n_obj_servers);
+    set_obj_server_bufs(transfer_request);
+}
+
 static perr_t
 unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
-                             pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
+                             int n_objs, pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
     perr_t                              ret_value = SUCCEED;
@@ -668,21 +683,14 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
             transfer_request_end = transfer_request_head;
         }
         // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
+        while (!counter) {
             counter = *(int *)ptr;
             ptr += sizeof(int);
-            local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
+            local_request = transfer_request_input[index]->transfer_request;
+            set_obj_servers(local_request, counter);
+            if (!counter) {
+                index++;
+            }
         }
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
@@ -739,6 +747,10 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
         }
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
+    // The remaining requests do not overlap with any region.
+    for (; index < n_objs; ++index) {
+        set_obj_servers(transfer_request_input[index]->transfer_request, 0);
+    }
 
     *transfer_request_head_ptr = transfer_request_head;
     *transfer_request_end_ptr  = transfer_request_end;
@@ -808,17 +820,19 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                             &transfer_request_end, &output_size);
+                unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs,
+                                             &transfer_request_head, &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
             }
             index = i;
         }
@@ -847,21 +861,23 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
+            unpack_region_metadata_query(output_buf, transfer_requests + index, n_objs, &transfer_request_head,
                                          &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
         }
     }
 
-    if (output_size) {
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..adec9fd 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -262,6 +262,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
     transfer_request_counter_total = 0;
     transfer_request_counters      = (int *)calloc(size, sizeof(int));
     for (i = 0; i < size; ++i) {
+        // The number of overlapping regions is sent for every request, also for an unknown object.
+        total_data_size += sizeof(int);
         temp = metadata_server_objs;
         // First check which obj list
         while (temp) {
@@ -283,8 +285,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                 region_metadata = region_metadata->next;
             }
             transfer_request_counter_total += transfer_request_counters[i];
-            total_data_size += sizeof(int) + transfer_request_counters[i] *
-                                                 (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
+            total_data_size += transfer_request_counters[i] *
+                               (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
-- 
2.43.0


From 12b3f0db9652b0e6bcc076d8e4f10f9527b2989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 06/85] fix: removing the last outstanding transfer of an
 object updates the end of the list

---
 src/api/pdc_region/pdc_region_transfer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 105befd..d3eb495 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -366,6 +366,9 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp) {
+                    p->local_transfer_request_end = previous;
+                }
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 9ba9ad6307d71ad3a695c8a0ffa821dfa5108efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 07/85] fix: a transfer that a status request found complete on
 one server can still be polled and waited for

---
 src/api/pdc_region/pdc_region_transfer.c                     | 5 ++++-
 .../pdc_server_region/pdc_server_region_request_handler.h    | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index d3eb495..0984bd1 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1627,11 +1627,14 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-                if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
+                // A server forgets a request once it has reported it complete, so a part that an earlier
+                // status call already found complete is not found anymore.
+                if (*completed == PDC_TRANSFER_STATUS_PENDING) {
                     goto done;
                 }
             }
             // If we reach here, then all transfers are finished.
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 // printf("finished waiting for data from server %d, output_offsets = %lu, output_size = %lu,
                 // metadata_id = %lu\n", transfer_request->obj_servers[i],
diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..fbbceb1 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -275,9 +275,9 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // printf("processing transfer_id = %llu, pdc_server_rank = %d\n", (long long
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
+            // A request that is not found has completed already and was reported by a status request, so only
+            // a pending one defers the response.
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From 99e72847fed78ea95e7d61b534321c164f1ae6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 08/85] fix: wait_all skips transfers that have already been
 waited for, as wait does

---
 src/api/pdc_region/pdc_region_transfer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 0984bd1..f3b86b2 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1736,12 +1736,8 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (!transfer_request->metadata_id) {
-            fprintf(stderr,
-                    "PDCregion_transfer_wait_all [rank %d] @ line %d: Attempt to wait for a transfer request "
-                    "that has not been started.\n",
-                    pdc_client_mpi_rank_g, __LINE__);
-            ret_value = FAIL;
-            goto done;
+            // Finished by a previous wait (e.g. with posix consistency), as in PDCregion_transfer_wait
+            continue;
         }
         total_requests += transfer_request->n_obj_servers;
         for (j = 0; j < transfer_request->n_obj_servers; ++j) {
@@ -1768,6 +1764,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
             transfer_request_end->index            = j;
         }
     }
+    if (!total_requests) {
+        goto done;
+    }
     transfer_requests = (pdc_transfer_request_wait_all_pkg **)malloc(
         sizeof(pdc_transfer_request_wait_all_pkg *) * total_requests);
     temp = transfer_request_head;
@@ -1876,6 +1875,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     for (i = 0; i < size; ++i) {
         transferinfo     = PDC_find_id(transfer_request_id[i]);
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
+        if (!transfer_request->metadata_id) {
+            continue;
+        }
         unit             = transfer_request->unit;
 
         if (transfer_request->region_partition == PDC_OBJ_STATIC &&
-- 
2.43.0


From 18c8a40aab71a3cb86487b15b94b0fdd79b9d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 09/85] fix: looking up an ID that is not registered returns
 NULL instead of dereferencing it

---
 src/commons/utils/include/pdc_linkedlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From 1d6f5bcfe5cf96871c574aa78357a63d3502298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 10/85] fix: closing an object with outstanding transfers does
 not walk freed list nodes

---
 src/api/pdc_obj/pdc_obj.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..78dc4c7 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -392,7 +392,7 @@ PDC_obj_close(struct _pdc_obj_info *op)
 {
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
-    pdc_local_transfer_request *temp, *previous;
+    pdc_local_transfer_request *temp;
     int                         i;
 
     FUNC_ENTER(NULL);
@@ -403,9 +403,7 @@ PDC_obj_close(struct _pdc_obj_info *op)
         i                   = 0;
         while (temp != NULL) {
             transfer_request_id[i] = temp->local_id;
-            previous               = temp;
             temp                   = temp->next;
-            free(previous);
             ++i;
         }
         PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-- 
2.43.0


From 156882f40845975cd090f6221f78ea67afd395bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 11/85] fix: wait_all of transfers that reach no server still
 finishes them

---
 src/api/pdc_region/pdc_region_transfer.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index f3b86b2..a620116 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1764,9 +1764,6 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
             transfer_request_end->index            = j;
         }
     }
-    if (!total_requests) {
-        goto done;
-    }
     transfer_requests = (pdc_transfer_request_wait_all_pkg **)malloc(
         sizeof(pdc_transfer_request_wait_all_pkg *) * total_requests);
     temp = transfer_request_head;
-- 
2.43.0


From 12ea2df279e69ce5f3b9af86140706cf3416eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 12/85] fix: closing a transfer request releases it and waits
 for it when it is outstanding

---
 src/api/pdc_region/pdc_region_transfer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index a620116..5895df1 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -287,8 +287,9 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
         goto done;
     }
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
+    if (transfer_request->metadata_id != NULL) {
+        // Still outstanding: the object keeps track of it until it is waited for
+        PDCregion_transfer_wait(transfer_request_id);
     }
 
     // Check for consistency
-- 
2.43.0


From 7f7451eb8815d0a313f12c5f37c502fab9439f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 13/85] fix: static region partition sends no empty sub-region
 to a server without a share

---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 5895df1..6374b26 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -445,6 +445,10 @@ static_region_partition(char *buf, int ndim, uint64_t unit, pdc_access_t access_
             static_offset = x * s + (i - x) * (s + 1);
             static_size   = s + 1;
         }
+        // A server has no share when there are more servers than elements along the split dimension.
+        if (static_size == 0) {
+            continue;
+        }
         // printf("static offset = %lu, static_size = %lu, offset = %lu, size = %lu\n", (long
         // unsigned)static_offset, (long unsigned)static_size, (long unsigned)offset[split_dim], (long
         // unsigned)size[split_dim]);
-- 
2.43.0


From 1c4e1c1fb70ad948d337838af8dcb0dc10f99b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 14/85] fix: registering a cached region does not touch the
 object cache after a flush freed it

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index f5c0b1f..7515f45 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -472,6 +472,9 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
 
+    // The object cache may be flushed and freed as soon as the lock is released
+    gettimeofday(&(obj_cache->timestamp), NULL);
+
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
     if (total_cache_size > maximum_cache_size) {
@@ -487,8 +490,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
     //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From f2add87c73d9b8f742d6a782c6f03d6c70eca5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 15/85] fix: region metadata of dynamic/local partitioned
 objects survives a checkpoint and restart

---
 .../pdc_server_region_transfer_metadata_query.c          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index adec9fd..a072b6b 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,13 +79,14 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
+            metadata_server_objs_end->next = NULL;
 
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
@@ -226,7 +227,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From 4c792f2cc2b8b07a22a36b934311f0ab78fdaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 16/85] fix: reading a tag returns the type it was stored with

---
 src/server/pdc_server_metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..f70b673 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2984,6 +2984,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
-- 
2.43.0


From 57e1f1d04b1335104ae8cd2716f29eefa071c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 17/85] fix: tags of a container are found when an object has
 the same name, and only for that container

---
 src/server/pdc_server_metadata.c | 144 +++++++++++--------------------
 1 file changed, 50 insertions(+), 94 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index f70b673..97ac61c 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2849,42 +2849,44 @@ done:
     return ret_value;
 }
 
-static perr_t
-PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t *out)
+/*
+ * Find the tag list of an object or a container, they are distinguished by their ID as they may share a name
+ */
+static pdc_kvtag_list_t **
+PDC_Server_find_kvtag_list(uint32_t hash_key, uint64_t id)
 {
-    perr_t                       ret_value = SUCCEED;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
-    uint32_t                     hash_key;
-
-    hash_key = in->hash_value;
+    pdc_metadata_t *             target;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
     if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
-    else { // look for containers
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        }
-        else {
-            printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g,
-                   in->obj_id);
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+        target = find_metadata_by_id_from_list(lookup_value->metadata, id);
+        if (target != NULL)
+            return &target->kvtag_list_head;
+    }
+    cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
+    if (cont_lookup_value != NULL && cont_lookup_value->cont_id == id)
+        return &cont_lookup_value->kvtag_list_head;
+
+    return NULL;
+}
+
+static perr_t
+PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t *out)
+{
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **kvtag_list;
+
+    kvtag_list = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (kvtag_list != NULL) {
+        PDC_add_kvtag_to_list(kvtag_list, &in->kvtag);
+        out->ret = 1;
+    }
+    else {
+        printf("==PDC_SERVER[%d]: add tag target %" PRIu64 " not found!\n", pdc_server_rank_g, in->obj_id);
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -3106,39 +3108,17 @@ PDC_Server_get_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out
 static perr_t
 PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
-
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **kvtag_list;
 
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    kvtag_list = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (kvtag_list != NULL) {
+        PDC_get_kvtag_value_from_list(kvtag_list, in->key, out);
+        out->ret = 1;
     }
     else {
-
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
     }
 
     return ret_value;
@@ -3304,43 +3284,19 @@ PDC_Server_del_kvtag_sqlite3(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
 static perr_t
 PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t *out)
 {
-    perr_t                       ret_value = SUCCEED;
-    uint32_t                     hash_key;
-    uint64_t                     obj_id;
-    pdc_hash_table_entry_head *  lookup_value;
-    pdc_cont_hash_table_entry_t *cont_lookup_value;
-
-    hash_key = in->hash_value;
-    obj_id   = in->obj_id;
+    perr_t             ret_value = SUCCEED;
+    pdc_kvtag_list_t **kvtag_list;
 
-    // Look obj tags first
-    lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
-        target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    kvtag_list = PDC_Server_find_kvtag_list(in->hash_value, in->obj_id);
+    if (kvtag_list != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(kvtag_list, in->key);
+        out->ret  = 1;
     }
     else {
-        cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
-            PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+        ret_value = FAIL;
+        out->ret  = -1;
+        printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g, __func__,
+               in->key);
     }
 
     return ret_value;
-- 
2.43.0


From 8250283d8a6f2e38adc24628a08902f2d3ccd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 18/85] fix: setting an existing tag replaces its value instead
 of leaving the old one in front

---
 src/server/pdc_server_metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 97ac61c..5882a47 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2749,6 +2749,8 @@ PDC_free_cont_hash_table()
     return SUCCEED;
 }
 
+static perr_t PDC_del_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key);
+
 /*
  * Add the kvtag received from one client to the corresponding metadata structure
  *
@@ -2765,6 +2767,9 @@ PDC_add_kvtag_to_list(pdc_kvtag_list_t **list_head, pdc_kvtag_t *tag)
     pdc_kvtag_t *     newtag;
     FUNC_ENTER(NULL);
 
+    // Setting an existing tag replaces its value
+    PDC_del_kvtag_value_from_list(list_head, tag->name);
+
     PDC_kvtag_dup(tag, &newtag);
     new_list_item        = (pdc_kvtag_list_t *)PDC_calloc(1, sizeof(pdc_kvtag_list_t));
     new_list_item->kvtag = newtag;
-- 
2.43.0


From 82a4e861ba1dd768d722cb6cdb38fd3e33dcc4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 19/85] fix: a tag query compares values of the same size only

---
 src/server/pdc_server_metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 5882a47..98c5fde 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1616,7 +1616,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
-- 
2.43.0


From 9de1fe7c4d900ee7f9dcb1be9c0b8a37d474617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 20/85] fix: deleting the last object of a hash entry does not
 walk the freed entry

---
 src/server/pdc_server_metadata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 98c5fde..739257d 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1012,6 +1012,8 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     out->ret  = 1;
                     ret_value = SUCCEED;
+                    // Object IDs are unique, and the list may not be there any more
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
-- 
2.43.0


From 1ead1d73a816756bb718f12c5876e87314033027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 21/85] fix: size the result of a metadata query by the stored
 objects, the counter misses restarts and deletes

---
 src/server/pdc_server_metadata.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 739257d..8441020 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1554,8 +1554,18 @@ PDC_Server_get_partial_query_result(metadata_query_transfer_in_t *in, uint32_t *
 
     FUNC_ENTER(NULL);
 
-    // n_buf = n_metadata_g + 1 for potential padding array
-    n_buf     = n_metadata_g + 1;
+    // Number of stored metadata objects + 1 for potential padding array
+    n_buf = 1;
+    if (metadata_hash_table_g != NULL) {
+        n_entry = hash_table_num_entries(metadata_hash_table_g);
+        hash_table_iterate(metadata_hash_table_g, &hash_table_iter);
+        while (n_entry != 0 && hash_table_iter_has_more(&hash_table_iter)) {
+            pair = hash_table_iter_next(&hash_table_iter);
+            head = pair.value;
+            DL_FOREACH(head->metadata, elt)
+            n_buf++;
+        }
+    }
     *buf_ptrs = (void **)calloc(n_buf, sizeof(void *));
     for (i = 0; i < n_buf; i++) {
         (*buf_ptrs)[i] = (void *)calloc(1, sizeof(void *));
-- 
2.43.0


From 17bd33589d434af99f3639b5ef82767be7c07ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 22/85] fix: allocate enough space when the first objects added
 to a container are many

---
 src/server/pdc_server_metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 8441020..ca7168c 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -2453,8 +2453,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From 735fdbe4241d33de0768d0407d2880e4659ee4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 23/85] fix: tag operations the server rejects are reported as
 failed to the caller

---
 src/api/pdc_client_connect.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..46fb509 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7110,8 +7110,10 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
-    if (lookup_args.ret != 1)
+    if (lookup_args.ret != 1) {
         printf("PDC_CLIENT: add kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        ret_value = FAIL;
+    }
 
 done:
     fflush(stdout);
@@ -7210,8 +7212,10 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
-    if (lookup_args.ret != 1)
+    if (lookup_args.ret != 1) {
         printf("PDC_CLIENT: get kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        ret_value = FAIL;
+    }
 
 done:
     fflush(stdout);
@@ -7514,8 +7518,10 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
-    if (lookup_args.ret != 1)
+    if (lookup_args.ret != 1) {
         printf("PDC_CLIENT: del kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        ret_value = FAIL;
+    }
 
 done:
     fflush(stdout);
-- 
2.43.0


From 3c1e199cdb3036a2139daf62d48fc39af0b37c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 24/85] fix: opening an object that does not exist fails
 instead of dereferencing NULL

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 78dc4c7..c8d2de7 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -572,7 +572,7 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     else
         ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
 
-    if (ret == FAIL)
+    if (ret == FAIL || out == NULL)
         PGOTO_ERROR(0, "query object failed");
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
-- 
2.43.0


From 9436611428b19b4e5082444351f61ce4fbb71c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 25/85] fix: the consistency semantics of an object are sent to
 the server when it is created

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 46fb509..99c9e24 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2651,6 +2651,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     in.data_type             = create_prop->obj_prop_pub->type;
     in.data.data_server_id   = PDC_CLIENT_DATA_SERVER();
     in.data.region_partition = create_prop->obj_prop_pub->region_partition;
+    in.data.consistency      = create_prop->obj_prop_pub->consistency;
     // printf("prepare for sending region partition %d with obj name %s\n", (int)in.data.region_partition,
     // obj_name);
     *data_server_id = in.data.data_server_id;
-- 
2.43.0


From 94d3d3ba71543af537cf866138eca4932b373e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 26/85] fix: an object the server refuses to create leaves no
 half-initialised ID behind

---
 src/api/pdc_obj/pdc_obj.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index c8d2de7..6a96705 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -333,7 +333,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -360,7 +359,9 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
 
-    ret_value = p->obj_info_pub->local_id;
+    // Only a complete object gets an ID, the ID functions release every registered object
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+    ret_value                 = p->obj_info_pub->local_id;
 
 done:
     fflush(stdout);
-- 
2.43.0


From b687a00c6efa7e3ccf7166b95d21a32b2c350259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 27/85] fix: a partial metadata query fills every field, takes
 -1 dimensions as any, and leaves surplus clients idle

---
 src/api/pdc_client_connect.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 99c9e24..39341f2 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1686,12 +1686,15 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
     in.obj_name       = " ";
     in.time_step_from = -1;
     in.time_step_to   = -1;
-    in.ndim           = -1;
+    in.ndim           = 0; // any
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
-        in.ndim           = ndim;
+        in.ndim           = ndim > 0 ? ndim : 0;
         in.time_step_from = time_step_from;
         in.time_step_to   = time_step_to;
         if (app_name != NULL)
@@ -1717,7 +1720,7 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         my_server_start = pdc_client_mpi_rank_g;
         my_server_end   = my_server_start + 1;
         if (pdc_client_mpi_rank_g >= pdc_server_num_g) {
-            my_server_end = -1;
+            my_server_end = my_server_start; // more clients than servers, nothing left to ask
         }
     }
 
@@ -1801,6 +1804,9 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
     in.time_step_to   = -1;
     in.ndim           = 0;
     in.tags           = tags;
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     *out   = NULL;
     *n_res = 0;
-- 
2.43.0


From d85abd7dd682d96a62e0bebc1de6f3d2190c1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 28/85] fix: a restarted server does not hand out the IDs of
 stored objects and containers again

---
 src/server/pdc_server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..76a4d78 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1515,6 +1515,9 @@ PDC_Server_restart(char *filename)
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
         }
+        // New IDs follow the ones in use
+        if (cont_entry->cont_id >= pdc_id_seq_g)
+            pdc_id_seq_g = cont_entry->cont_id + 1;
 
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&pdc_container_hash_table_mutex_g);
@@ -1557,6 +1560,8 @@ PDC_Server_restart(char *filename)
             if (fread(metadata + i, sizeof(pdc_metadata_t), 1, file) != 1) {
                 printf("Read failed for metadata\n");
             }
+            if ((metadata + i)->obj_id >= pdc_id_seq_g)
+                pdc_id_seq_g = (metadata + i)->obj_id + 1;
 
             (metadata + i)->storage_region_list_head       = NULL;
             (metadata + i)->region_lock_head               = NULL;
@@ -1723,6 +1728,10 @@ PDC_Server_restart(char *filename)
         if (fread(&new_obj_reg->obj_id, sizeof(uint64_t), 1, file) != 1) {
             printf("Read failed for obj_id\n");
         }
+        // The data may be of a deleted object, its ID is not used again either
+        if (new_obj_reg->obj_id / PDC_SERVER_ID_INTERVEL == pdc_server_rank_g + 1 &&
+            new_obj_reg->obj_id >= pdc_id_seq_g)
+            pdc_id_seq_g = new_obj_reg->obj_id + 1;
         if (fread(&n_region, sizeof(int), 1, file) != 1) {
             printf("Read failed for n_region\n");
         }
-- 
2.43.0


From 8b14d06c3878145cde322aad600ef5a437948e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 29/85] fix: tags and members of a container survive a
 checkpoint and restart

---
 src/server/pdc_server.c | 105 +++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 40 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 76a4d78..a0c72cc 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1208,6 +1208,25 @@ PDC_Server_checkpoint_cb()
     return HG_SUCCESS;
 }
 
+static void
+PDC_Server_checkpoint_kvtags(pdc_kvtag_list_t *kvtag_list_head, FILE *file)
+{
+    pdc_kvtag_list_t *kvlist_elt;
+    int               n_kvtag, key_len;
+
+    DL_COUNT(kvtag_list_head, kvlist_elt, n_kvtag);
+    fwrite(&n_kvtag, sizeof(int), 1, file);
+    DL_FOREACH(kvtag_list_head, kvlist_elt)
+    {
+        key_len = strlen(kvlist_elt->kvtag->name) + 1;
+        fwrite(&key_len, sizeof(int), 1, file);
+        fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
+        fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
+        fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
+        fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
+    }
+}
+
 /*
  * Checkpoint in-memory metadata to persistant storage, each server writes to one file
  *
@@ -1221,10 +1240,9 @@ PDC_Server_checkpoint()
     perr_t                       ret_value = SUCCEED;
     pdc_metadata_t *             elt;
     region_list_t *              region_elt;
-    pdc_kvtag_list_t *           kvlist_elt;
     pdc_hash_table_entry_head *  head;
     pdc_cont_hash_table_entry_t *cont_head;
-    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
+    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0;
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
@@ -1288,6 +1306,9 @@ PDC_Server_checkpoint()
         hash_key = PDC_get_hash_by_name(cont_head->cont_name);
         fwrite(&hash_key, sizeof(uint32_t), 1, file);
         fwrite(cont_head, sizeof(pdc_cont_hash_table_entry_t), 1, file);
+        // What its pointers refer to: members and kv tags
+        fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+        PDC_Server_checkpoint_kvtags(cont_head->kvtag_list_head, file);
     }
 
     // DHT
@@ -1311,17 +1332,7 @@ PDC_Server_checkpoint()
             fwrite(elt, sizeof(pdc_metadata_t), 1, file);
 
             // Write kv tags
-            DL_COUNT(elt->kvtag_list_head, kvlist_elt, n_kvtag);
-            fwrite(&n_kvtag, sizeof(int), 1, file);
-            DL_FOREACH(elt->kvtag_list_head, kvlist_elt)
-            {
-                key_len = strlen(kvlist_elt->kvtag->name) + 1;
-                fwrite(&key_len, sizeof(int), 1, file);
-                fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
-                fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
-                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
-                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
-            }
+            PDC_Server_checkpoint_kvtags(elt->kvtag_list_head, file);
 
             // Write region info
             n_region = 0;
@@ -1449,6 +1460,38 @@ region_cmp(region_list_t *a, region_list_t *b)
     return memcmp(a->start, b->start, unit_size);
 }
 
+static void
+PDC_Server_restart_kvtags(pdc_kvtag_list_t **kvtag_list_head, FILE *file)
+{
+    int n_kvtag, key_len, j;
+
+    if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+        printf("Read failed for n_kvtag\n");
+    }
+    for (j = 0; j < n_kvtag; j++) {
+        pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+        kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
+        if (fread(&key_len, sizeof(int), 1, file) != 1) {
+            printf("Read failed for key_len\n");
+        }
+        kvtag_list->kvtag->name = malloc(key_len);
+        if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->name\n");
+        }
+        if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->size\n");
+        }
+        if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->type\n");
+        }
+        kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+        if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+            printf("Read failed for kvtag_list->kvtag->value\n");
+        }
+        DL_APPEND(*kvtag_list_head, kvtag_list);
+    }
+}
+
 /*
  * Load metadata from checkpoint file in persistant storage
  *
@@ -1460,8 +1503,7 @@ perr_t
 PDC_Server_restart(char *filename)
 {
     perr_t ret_value = SUCCEED;
-    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
-                              n_kvtag, key_len;
+    int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0;
     int                          n_cont, all_cont;
     pdc_metadata_t *             metadata, *elt;
     region_list_t *              region_list;
@@ -1515,6 +1557,13 @@ PDC_Server_restart(char *filename)
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
         }
+        cont_entry->n_allocated     = cont_entry->n_obj;
+        cont_entry->obj_ids         = (uint64_t *)calloc(cont_entry->n_obj + 1, sizeof(uint64_t));
+        cont_entry->kvtag_list_head = NULL;
+        if (fread(cont_entry->obj_ids, sizeof(uint64_t), cont_entry->n_obj, file) != cont_entry->n_obj) {
+            printf("Read failed for cont_entry->obj_ids\n");
+        }
+        PDC_Server_restart_kvtags(&cont_entry->kvtag_list_head, file);
         // New IDs follow the ones in use
         if (cont_entry->cont_id >= pdc_id_seq_g)
             pdc_id_seq_g = cont_entry->cont_id + 1;
@@ -1574,31 +1623,7 @@ PDC_Server_restart(char *filename)
             (metadata + i)->all_storage_region_distributed = 0;
 
             // Read kv tags
-            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
-                printf("Read failed for n_kvtag\n");
-            }
-            for (j = 0; j < n_kvtag; j++) {
-                pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
-                kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
-                if (fread(&key_len, sizeof(int), 1, file) != 1) {
-                    printf("Read failed for key_len\n");
-                }
-                kvtag_list->kvtag->name = malloc(key_len);
-                if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->name\n");
-                }
-                if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->size\n");
-                }
-                if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->type\n");
-                }
-                kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
-                if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->value\n");
-                }
-                DL_APPEND((metadata + i)->kvtag_list_head, kvtag_list);
-            }
+            PDC_Server_restart_kvtags(&(metadata + i)->kvtag_list_head, file);
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
-- 
2.43.0


From 74b1a072cfaddebc8aef8466286e9330ba61561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 30/85] fix: a crash while a checkpoint is written does not
 destroy the previous checkpoint

---
 src/server/pdc_server.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index a0c72cc..9e94bf0 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1246,6 +1246,8 @@ PDC_Server_checkpoint()
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file_new[ADDR_MAX + 8];
+    int               checkpoint_failed;
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
@@ -1285,8 +1287,11 @@ PDC_Server_checkpoint()
 
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
-    else
-        file = fopen(checkpoint_file, "w+");
+    else {
+        // The previous checkpoint stays in place until this one is complete
+        snprintf(checkpoint_file_new, sizeof(checkpoint_file_new), "%s.new", checkpoint_file);
+        file = fopen(checkpoint_file_new, "w+");
+    }
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1403,7 +1408,16 @@ PDC_Server_checkpoint()
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
 
-    fclose(file);
+    checkpoint_failed = ferror(file);
+    if (fflush(file) != 0 || fsync(fileno(file)) != 0)
+        checkpoint_failed = 1;
+    if (fclose(file) != 0)
+        checkpoint_failed = 1;
+
+    if (!use_tmpfs && (checkpoint_failed || rename(checkpoint_file_new, checkpoint_file) != 0)) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
+    }
 
     if (use_tmpfs) {
 #ifdef PDC_TIMING
-- 
2.43.0


From 8b839a84606be00853404476d6fd28c56acecccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 31/85] fix: PDCprop_create leaves the user ID of an object
 property uninitialised

---
 src/api/pdc_obj/pdc_prop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..b2b0d8d 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -96,6 +96,7 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->type             = PDC_UNKNOWN;
         q->obj_prop_pub->region_partition = PDC_REGION_STATIC;
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
+        q->user_id                        = 0;
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
         q->time_step                      = 0;
-- 
2.43.0


From adb6eb0fd3df09d35bb1119dd816e393c95fd2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 32/85] fix: PDCprop_obj_dup loses the type, consistency and
 user ID

---
 src/api/pdc_obj/pdc_prop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index b2b0d8d..407365d 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -147,6 +147,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
     if (info->app_name)
         q->app_name = strdup(info->app_name);
+    q->user_id   = info->user_id;
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
@@ -161,8 +162,9 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->obj_prop_id      = new_id;
     q->obj_prop_pub->ndim             = info->obj_prop_pub->ndim;
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
-    q->obj_prop_pub->type             = PDC_UNKNOWN;
+    q->obj_prop_pub->type             = info->obj_prop_pub->type;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From edac6d7ee3bb11a8e03d688e1a8c3d4cf11b0669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 33/85] fix: PDCprop_set_obj_dims keeps the old number of
 dimensions when it shrinks

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 6a96705..62321d5 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -874,8 +874,8 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
             free(prop->obj_prop_pub->dims);
         }
         prop->obj_prop_pub->dims = (uint64_t *)malloc(ndim * sizeof(uint64_t));
-        prop->obj_prop_pub->ndim = ndim;
     }
+    prop->obj_prop_pub->ndim = ndim;
     memcpy(prop->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
 
 done:
-- 
2.43.0


From fbec093f1b614aed64c7c8b23df572366075881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 34/85] fix: PDCobj_iter_next loops for ever past an object of
 another container

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 62321d5..db0aab5 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -714,7 +714,7 @@ PDCobj_iter_next(obj_handle *ohandle, pdcid_t cont_id)
 
     while (next != NULL &&
            ((struct _pdc_obj_info *)(next->obj_ptr))->cont->cont_info_pub->local_id != cont_id) {
-        next = PDC_LIST_NEXT(ohandle, entry);
+        next = PDC_LIST_NEXT(next, entry);
     }
 
     ret_value = next;
-- 
2.43.0


From d3d9988c6d8663d41a4e6bed81bc57a16169bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 35/85] fix: creating objects and containers from an invalid
 handle crashes

---
 src/api/pdc_obj/pdc_cont.c | 12 ++++++++++--
 src/api/pdc_obj/pdc_obj.c  | 16 ++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..937315a 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -61,6 +61,10 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
+
     p = (struct _pdc_cont_info *)PDC_malloc(sizeof(struct _pdc_cont_info));
     if (!p)
         PGOTO_ERROR(0, "PDC container memory allocation failed");
@@ -70,7 +74,6 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -110,6 +113,10 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
+
     p = (struct _pdc_cont_info *)PDC_malloc(sizeof(struct _pdc_cont_info));
     if (!p)
         PGOTO_ERROR(0, "PDC container memory allocation failed");
@@ -119,7 +126,6 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -365,6 +371,8 @@ PDCcont_get_info(const char *cont_name)
     cont_id = PDC_find_byname(PDC_CONT, cont_name);
 
     tmp = PDC_cont_get_info(cont_id);
+    if (tmp == NULL)
+        PGOTO_ERROR(NULL, "cannot locate container");
 
     ret_value = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
     if (!ret_value)
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index db0aab5..bf4d1e1 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -239,6 +239,11 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
 
     FUNC_ENTER(NULL);
 
+    if (cont_id != 0 && PDC_find_id(cont_id) == NULL)
+        PGOTO_ERROR(0, "cannot locate container ID");
+    if (PDC_find_id(obj_prop_id) == NULL)
+        PGOTO_ERROR(0, "cannot locate object property ID");
+
     p = (struct _pdc_obj_info *)PDC_malloc(sizeof(struct _pdc_obj_info));
     if (!p)
         PGOTO_ERROR(0, "PDC object memory allocation failed");
@@ -973,9 +978,8 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
 
     FUNC_ENTER(NULL);
     info = PDC_find_id(obj_id);
-    if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
-    }
+    if (info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
         // We do not allow setting obj dims while the region transfer requests are taking places.
@@ -1010,14 +1014,14 @@ PDCobj_get_dims(pdcid_t obj_id, int *ndim, uint64_t **dims)
     FUNC_ENTER(NULL);
 
     info = PDC_find_id(obj_id);
-    if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
-    }
+    if (info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     *ndim  = object->obj_pt->obj_prop_pub->ndim;
     *dims  = (uint64_t *)malloc(sizeof(uint64_t) * ndim[0]);
     memcpy(*dims, object->obj_pt->obj_prop_pub->dims, sizeof(uint64_t) * ndim[0]);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
-- 
2.43.0


From 65c042601b11c0c244c00cfb14cf1e0edfc42250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 36/85] fix: tag, delete and container membership calls crash
 on an invalid handle

---
 src/api/pdc_client_connect.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 39341f2..f08390a 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2017,6 +2017,8 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - invalid tag content!", pdc_client_mpi_rank_g);
 
     obj_prop  = PDC_obj_get_info(obj_id);
+    if (obj_prop == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     meta_id   = obj_prop->obj_info_pub->meta_id;
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
 
@@ -2238,6 +2240,8 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     FUNC_ENTER(NULL);
 
     delete_prop = PDC_obj_prop_get_info(obj_delete_prop);
+    if (delete_prop == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object property ID");
     // Fill input structure
     in.obj_name  = delete_name;
     in.time_step = delete_prop->time_step;
@@ -5501,14 +5505,19 @@ PDC_Client_add_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
         id_info    = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
     id_info      = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate container ID");
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, ADD_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -5527,14 +5536,19 @@ PDC_Client_del_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
         id_info    = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
     id_info      = PDC_find_id(local_cont_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate container ID");
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, DEL_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -7073,12 +7087,16 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
 
     if (is_cont == 0) {
         obj_prop      = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
         cont_prop     = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7183,12 +7201,16 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
 
     if (is_cont == 0) {
         obj_prop      = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
         cont_prop     = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7490,10 +7512,14 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id   = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id  = obj_prop->obj_info_pub->meta_id;
     }
 
@@ -7738,7 +7764,9 @@ PDCobj_put_data(const char *obj_name, void *data, uint64_t size, pdcid_t cont_id
     FUNC_ENTER(NULL);
 
     id_info = PDC_find_id(cont_id);
-    info    = (struct _pdc_cont_info *)(id_info->obj_ptr);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container ID");
+    info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, info->cont_pt->pdc->local_id);
     PDCprop_set_obj_type(obj_prop, PDC_CHAR);
@@ -7845,10 +7873,14 @@ PDC_Client_del_metadata(pdcid_t obj_id, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id   = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id  = obj_prop->obj_info_pub->meta_id;
     }
 
@@ -8187,6 +8219,8 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
 
     if (PDC_find_id(obj_id) != NULL) {
         obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id  = obj_prop->obj_info_pub->meta_id;
     }
     else
-- 
2.43.0


From 16ca76847bdaa633d3708d52551f8f8fec09f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 37/85] fix: region, lock and transfer calls crash on an
 invalid handle

---
 src/api/pdc_region/pdc_region.c          | 10 +++++++-
 src/api/pdc_region/pdc_region_transfer.c | 32 ++++++++++++++++++------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..df36c05 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,6 +223,8 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
     reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
@@ -335,6 +339,8 @@ PDCreg_obtain_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type, pdc
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
     ret_value   = PDC_Client_region_lock(object_info->obj_info_pub->meta_id, object_info, region_info,
                                        access_type, lock_mode, data_type, &obtained);
 
@@ -362,6 +368,8 @@ PDCreg_release_lock(pdcid_t obj_id, pdcid_t reg_id, pdc_access_t access_type)
     // object_info = PDC_obj_get_info(obj_id);
     data_type   = object_info->obj_pt->obj_prop_pub->type;
     region_info = PDCregion_get_info(reg_id);
+    if (region_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate region ID");
 
     ret_value = PDC_Client_region_release(object_info->obj_info_pub->meta_id, object_info, region_info,
                                           access_type, data_type, &released);
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 6374b26..54384ed 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -199,12 +199,14 @@ PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, p
 
     FUNC_ENTER(NULL);
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reginfo2 = PDC_find_id(remote_reg);
+    if (reginfo1 == NULL || reginfo2 == NULL)
+        PGOTO_ERROR(0, "cannot locate region ID");
+    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
     objinfo2 = PDC_find_id(obj_id);
     if (objinfo2 == NULL)
-        PGOTO_ERROR(FAIL, "cannot locate remote object ID");
+        PGOTO_ERROR(0, "cannot locate remote object ID");
     obj2 = (struct _pdc_obj_info *)(objinfo2->obj_ptr);
     // remote_meta_id = obj2->obj_info_pub->meta_id;
 
@@ -283,9 +285,8 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
-    if (transferinfo == NULL) {
-        goto done;
-    }
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // Still outstanding: the object keeps track of it until it is waited for
@@ -1343,11 +1344,16 @@ perr_t
 PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
 {
     perr_t                               ret_value  = SUCCEED;
+    int                                  i;
     int                                  write_size = 0, read_size = 0, posix_size = 0;
     pdc_transfer_request_start_all_pkg **write_transfer_requests = NULL, **read_transfer_requests = NULL;
     pdcid_t *                            posix_transfer_request_id;
 
     FUNC_ENTER(NULL);
+    for (i = 0; i < size; ++i) {
+        if (PDC_find_id(transfer_request_id[i]) == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+    }
     // Split write and read requests. Handle them separately.
     // printf("PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     ret_value = prepare_start_all_requests(transfer_request_id, size, &write_transfer_requests,
@@ -1381,6 +1387,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     finish_start_all_requests(write_transfer_requests, read_transfer_requests, write_size, read_size);
     // fprintf(stderr, "PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     // MPI_Barrier(MPI_COMM_WORLD);
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -1453,6 +1460,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
 
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
@@ -1621,7 +1630,9 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         unit = transfer_request->unit;
@@ -1734,6 +1745,11 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         goto done;
     }
 
+    for (i = 0; i < size; ++i) {
+        if (PDC_find_id(transfer_request_id[i]) == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+    }
+
     // printf("entered PDCregion_transfer_wait_all @ line %d\n", __LINE__);
     total_requests        = 0;
     transfer_request_head = NULL;
@@ -1936,7 +1952,9 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // For region dynamic case, it is implemented in the aggregated version for portability.
-- 
2.43.0


From 3bffedce1ee2e48572f9b0e456ecd12eb6c084f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 38/85] fix: PDCobj_create with container ID 0 reads an
 uninitialised container

---
 src/api/pdc_obj/pdc_obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index bf4d1e1..157a302 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -239,7 +239,7 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
 
     FUNC_ENTER(NULL);
 
-    if (cont_id != 0 && PDC_find_id(cont_id) == NULL)
+    if (PDC_find_id(cont_id) == NULL)
         PGOTO_ERROR(0, "cannot locate container ID");
     if (PDC_find_id(obj_prop_id) == NULL)
         PGOTO_ERROR(0, "cannot locate object property ID");
-- 
2.43.0


From 07268521749145a3169d1b9b59e5d00fe7c163ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 39/85] fix: reading an object property leaks its application
 name

---
 src/api/pdc_obj/pdc_prop.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 407365d..4269ff5 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -374,8 +374,6 @@ PDC_obj_prop_get_info(pdcid_t obj_prop)
     if (ret_value == NULL)
         PGOTO_ERROR(NULL, "PDC object property memory allocation failed");
     memcpy(ret_value, info, sizeof(struct _pdc_obj_prop));
-    if (info->app_name)
-        ret_value->app_name = strdup(info->app_name);
     if (info->app_name)
         ret_value->app_name = strdup(info->app_name);
     if (info->data_loc)
-- 
2.43.0


From 4947c715da5f4e11e68c68f020d45bd9a8f1fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 40/85] fix: error paths of the client destroy an uninitialised
 Mercury handle

---
 src/api/pdc_client_connect.c | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index f08390a..8a31d8f 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2004,7 +2004,7 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret    = 0;
-    hg_handle_t                    metadata_add_tag_handle;
+    hg_handle_t                    metadata_add_tag_handle = HG_HANDLE_NULL;
     uint64_t                       meta_id;
     uint32_t                       server_id;
     struct _pdc_obj_info *         obj_prop;
@@ -2096,7 +2096,7 @@ PDC_Client_update_metadata(pdc_metadata_t *old, pdc_metadata_t *new)
     uint32_t                       server_id = 0;
     metadata_update_in_t           in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_update_handle;
+    hg_handle_t                    metadata_update_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2185,7 +2185,7 @@ PDC_Client_delete_metadata_by_id(uint64_t obj_id)
     metadata_delete_by_id_in_t     in;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_by_id_handle;
+    hg_handle_t                    metadata_delete_by_id_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2235,7 +2235,7 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     int                            hash_name_value;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_handle;
+    hg_handle_t                    metadata_delete_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2356,7 +2356,7 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     uint32_t                        server_id;
     metadata_query_in_t             in;
     struct _pdc_metadata_query_args lookup_args;
-    hg_handle_t                     metadata_query_handle;
+    hg_handle_t                     metadata_query_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2480,7 +2480,7 @@ PDC_Client_create_cont_id(const char *cont_name, pdcid_t cont_create_prop ATTRIB
     gen_cont_id_in_t               in;
     uint32_t                       hash_name_value;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2569,7 +2569,7 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     uint32_t                        server_id;
     obj_reset_dims_in_t             in;
     struct _pdc_obj_reset_dims_args lookup_args;
-    hg_handle_t                     obj_reset_dims_handle;
+    hg_handle_t                     obj_reset_dims_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2638,7 +2638,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     gen_obj_id_in_t                in;
     uint32_t                       hash_name_value;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2845,7 +2845,7 @@ PDC_Client_buf_unmap(pdcid_t remote_obj_id, pdcid_t remote_reg_id, struct pdc_re
     uint32_t                 data_server_id, meta_server_id;
     struct _pdc_buf_map_args unmap_args;
 
-    hg_handle_t client_send_buf_unmap_handle;
+    hg_handle_t client_send_buf_unmap_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -3580,7 +3580,7 @@ PDC_Client_buf_map(pdcid_t local_region_id, pdcid_t remote_obj_id, size_t ndim,
     size_t *                 data_size = NULL;
     size_t                   unit, unit_to;
     struct _pdc_buf_map_args map_args;
-    hg_handle_t              client_send_buf_map_handle;
+    hg_handle_t              client_send_buf_map_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -3742,7 +3742,7 @@ PDC_Client_region_lock(pdcid_t remote_obj_id, struct _pdc_obj_info *object_info,
     uint32_t                     server_id, meta_server_id;
     region_lock_in_t             in;
     struct _pdc_region_lock_args lookup_args;
-    hg_handle_t                  region_lock_handle;
+    hg_handle_t                  region_lock_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -4757,7 +4757,7 @@ PDC_Client_data_server_read(struct pdc_request *request)
     hg_return_t                    hg_ret;
     struct _pdc_client_lookup_args lookup_args;
     data_server_read_in_t          in;
-    hg_handle_t                    data_server_read_handle;
+    hg_handle_t                    data_server_read_handle = HG_HANDLE_NULL;
     int                            server_id, n_client, n_update;
     pdc_metadata_t *               meta;
     struct pdc_region_info *       region;
@@ -4890,7 +4890,7 @@ PDC_Client_data_server_write_check(struct pdc_request *request, int *status)
     hg_return_t                    hg_ret;
     struct _pdc_client_lookup_args lookup_args;
     data_server_write_check_in_t   in;
-    hg_handle_t                    data_server_write_check_handle;
+    hg_handle_t                    data_server_write_check_handle = HG_HANDLE_NULL;
     int                            server_id;
     pdc_metadata_t *               meta;
     struct pdc_region_info *       region;
@@ -5558,7 +5558,7 @@ PDC_Client_add_tags_to_container(pdcid_t cont_id, char *tags)
 {
     perr_t                 ret_value = SUCCEED;
     hg_return_t            hg_ret    = HG_SUCCESS;
-    hg_handle_t            rpc_handle;
+    hg_handle_t            rpc_handle = HG_HANDLE_NULL;
     uint32_t               server_id;
     struct _pdc_id_info *  info;
     struct _pdc_cont_info *object;
@@ -5645,7 +5645,7 @@ PDC_Client_query_container_name(const char *cont_name, uint64_t *cont_meta_id)
     uint32_t                         hash_name_value, server_id;
     container_query_in_t             in;
     struct _pdc_container_query_args lookup_args;
-    hg_handle_t                      container_query_handle;
+    hg_handle_t                      container_query_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -6007,7 +6007,7 @@ PDC_Client_server_checkpoint(uint32_t server_id)
     hg_return_t                    hg_ret;
     pdc_int_send_t                 in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -6099,7 +6099,7 @@ PDC_Client_send_client_shm_info(uint32_t server_id, char *shm_addr, uint64_t siz
     hg_return_t                    hg_ret;
     send_shm_in_t                  in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -7077,7 +7077,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_add_kvtag_handle;
+    hg_handle_t                    metadata_add_kvtag_handle = HG_HANDLE_NULL;
     metadata_add_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7191,7 +7191,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_return_t                hg_ret    = 0;
     uint64_t                   meta_id;
     uint32_t                   server_id;
-    hg_handle_t                metadata_get_kvtag_handle;
+    hg_handle_t                metadata_get_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t    in;
     struct _pdc_get_kvtag_args lookup_args;
     struct _pdc_obj_info *     obj_prop;
@@ -7502,7 +7502,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_del_kvtag_handle;
+    hg_handle_t                    metadata_del_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -8203,7 +8203,7 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret;
-    hg_handle_t                    handle;
+    hg_handle_t                    handle = HG_HANDLE_NULL;
     int                            i;
     uint32_t                       server_id;
     uint64_t                       meta_id, off;
-- 
2.43.0


From ba665298adf12b9292d9ae69f500edaf942badf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 41/85] fix: PDCobj_get_data succeeds although the transfer
 cannot be created

---
 src/api/pdc_client_connect.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 8a31d8f..82a9cd1 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -7835,6 +7835,7 @@ PDCobj_get_data(pdcid_t obj_id, void *data, uint64_t size)
     reg              = PDCregion_create(1, &offset, &size);
     transfer_request = PDCregion_transfer_create(data, PDC_READ, obj_id, reg, reg);
     if (transfer_request == 0) {
+        ret_value = FAIL;
         goto done;
     }
     ret_value = PDCregion_transfer_start(transfer_request);
-- 
2.43.0


From e24719dc668caeab342afad56f73a6052d76a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 42/85] fix: objects deleted from the DART index are freed once
 only

---
 src/server/pdc_server_metadata_index.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..7762c0e 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -225,10 +225,16 @@ create_prefix_index_for_attr_value(void **index, unsigned char *attr_value, void
         art_insert(art_value_prefix_tree, attr_value, len, (void *)obj_id_set);
     }
 
-    int indexed = set_insert(obj_id_set, data);
-
-    if (indexed == -1) {
-        return FAIL;
+    // every set owns (and frees) its elements, so that it needs a copy of its own
+    if (set_query(obj_id_set, data) == 0) {
+        uint64_t *elem = (uint64_t *)malloc(sizeof(uint64_t));
+        if (elem == NULL)
+            return FAIL;
+        *elem = *(uint64_t *)data;
+        if (set_insert(obj_id_set, elem) == 0) {
+            free(elem);
+            return FAIL;
+        }
     }
 
     return ret;
@@ -314,6 +320,7 @@ metadata_index_create(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     create_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
     //     printf("[Server_Side_Insert_%d] Timer to insert a keyword %s : %s into index = %.4f
@@ -428,6 +435,7 @@ metadata_index_delete(char *attr_key, char *attr_value, uint64_t obj_locator, in
     // else if (index_type == DART_HASH) {
     delete_index_for_attr_name(attr_key, attr_value, (void *)data);
     // }
+    free(data);
 
     timer_pause(&timer);
     // if (DART_SERVER_DEBUG) {
-- 
2.43.0


From bf3cc8de982532b1552d15fa5101a94d7d17feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 43/85] fix: DART prefix and infix queries with a short token
 reach every server that can hold the keyword

---
 src/commons/index/dart/dart_core.c | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..4fa34f9 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -471,7 +471,8 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    // A token which does not reach beyond the leaf level does not tell where a longer keyword was reconciled.
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
                                                      || op_type == OP_INFIX_QUERY
 #else
@@ -482,20 +483,26 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // TODO: currently broadcast request to all virtual nodes in one region.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
-
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        // A keyword is either in the region of its first character, or, when it was reconciled, within the
+        // two regions that start at that region plus the inverted one.
+        uint64_t region_size  = dart_g->num_vnode / dart_g->alphabet_size;
+        uint64_t region_start = (((int)token[0] % dart_g->alphabet_size) + 0) * region_size;
+        uint64_t alter_start =
+            region_start + (((int)token[0] + dart_g->alphabet_size / 2) % dart_g->alphabet_size) * region_size;
+        int      num_srvs = 0;
+        uint64_t i;
+        char *   is_used = (char *)calloc(dart_g->num_server, sizeof(char));
+        out[0]           = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+
+        for (i = 0; i < 3 * region_size; i++) {
+            uint64_t vnode = i < region_size ? region_start + i : alter_start + i - region_size;
+            uint64_t srvId = get_server_id_by_vnode_id(dart_g, vnode % dart_g->num_vnode);
+            if (is_used[srvId] == 0) {
+                is_used[srvId]      = 1;
+                out[0][num_srvs++] = srvId;
+            }
         }
+        free(is_used);
         return num_srvs;
     }
     else {
-- 
2.43.0


From 26dcc31adf2b31a9ffaa15966ef9fd2e9e52bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 44/85] fix: deleting from the DART index removes every suffix
 of the attribute name that was inserted

---
 src/server/pdc_server_metadata_index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 7762c0e..b5b037d 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -382,7 +382,7 @@ delete_index_for_attr_name(char *attr_name, char *attr_value, void *data)
         nm_key  = rr == 1 ? (unsigned char *)reverse_str(attr_name) : (unsigned char *)attr_name;
         nm_trie = rr == 1 ? art_key_suffix_tree_g : art_key_prefix_tree_g;
 #else
-    int sub_loop_count = 1; // should be 'len', but we already iterate all suffixes at client side;
+    int sub_loop_count = len; // the same suffixes as create_index_for_attr_name inserts
     nm_trie            = art_key_prefix_tree_g;
     for (int j = 0; j < sub_loop_count; j++) {
         nm_key = (unsigned char *)substring(attr_name, j, len);
-- 
2.43.0


From 6f419b8a21b446fa7e157663bea21bbf9da9f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 45/85] fix: prefix and suffix queries of a DHT index reach the
 servers that hold the keywords

---
 src/commons/index/dart/dart_core.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 4fa34f9..8c82e32 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -666,15 +666,11 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
-            is_full_scan = 1;
-        }
-        else {
-            is_full_scan = 0;
-        }
+    else if (op_type == OP_PREFIX_QUERY) {
+        // when only the beginning of the token is hashed, all keywords with this prefix are on one server
+        is_full_scan = (len < strlen(key)) ? 0 : 1;
     }
-    else if (op_type == OP_INFIX_QUERY) {
+    else if (op_type == OP_SUFFIX_QUERY || op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
 
-- 
2.43.0


From 9b5abfe44c3aa3e9298d0305ca334007b85b469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 46/85] fix: DART queries with a short token find keywords that
 start with a non-ASCII character

---
 src/commons/index/dart/dart_core.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 8c82e32..f975477 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -87,7 +87,7 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
             met_end = 1;
         }
         if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -288,13 +288,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (int)(unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +302,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (int)(unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +331,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((int)(unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -486,9 +486,9 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         // A keyword is either in the region of its first character, or, when it was reconciled, within the
         // two regions that start at that region plus the inverted one.
         uint64_t region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        uint64_t region_start = (((int)token[0] % dart_g->alphabet_size) + 0) * region_size;
+        uint64_t region_start = (((int)(unsigned char)token[0] % dart_g->alphabet_size) + 0) * region_size;
         uint64_t alter_start =
-            region_start + (((int)token[0] + dart_g->alphabet_size / 2) % dart_g->alphabet_size) * region_size;
+            region_start + (((int)(unsigned char)token[0] + dart_g->alphabet_size / 2) % dart_g->alphabet_size) * region_size;
         int      num_srvs = 0;
         uint64_t i;
         char *   is_used = (char *)calloc(dart_g->num_server, sizeof(char));
-- 
2.43.0


From f489aee5d457d6a95532ee6722e3ac2eb4b51dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 47/85] fix: locking or mapping a region leaves the storage of
 the object uninitialised

---
 src/server/pdc_server_region/pdc_server_data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 643517f..b08d965 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -471,6 +471,10 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        // the storage is opened when the object is registered for I/O
+        new_obj_reg->close_flag       = 0;
+        new_obj_reg->fd               = -1;
+        new_obj_reg->storage_location = (char *)calloc(ADDR_MAX, sizeof(char));
         DL_APPEND(dataserver_region_g, new_obj_reg);
     }
 #ifdef ENABLE_MULTITHREAD
@@ -1230,7 +1234,8 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
 
-        new_obj_reg->fd = server_open_storage(storage_location, in->remote_obj_id);
+        new_obj_reg->close_flag               = 0;
+
         // Generate a location for data storage for data server to write
         user_specified_data_path = getenv("PDC_DATA_LOC");
 
-- 
2.43.0


From 3b4014732f897cd4084a0a4522903886f30dbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 48/85] fix: releasing a region that is not locked fails
 instead of crashing the server

---
 src/server/pdc_client_server_common.c          | 10 ++++++++++
 src/server/pdc_server_region/pdc_server_data.c |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..aa8336b 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -2898,6 +2898,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            error = 1;
+            free(request_region);
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: released region is not locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
@@ -3158,6 +3163,11 @@ HG_TEST_RPC_CB(region_release, handle)
         request_region = (region_list_t *)malloc(sizeof(region_list_t));
         PDC_region_transfer_t_to_list_t(&in.region, request_region);
         target_obj = PDC_Server_get_obj_region(in.obj_id);
+        if (target_obj == NULL) {
+            error = 1;
+            free(request_region);
+            PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: released region is not locked");
+        }
 #ifdef ENABLE_MULTITHREAD
         hg_thread_mutex_lock(&lock_list_mutex_g);
 #endif
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index b08d965..64001c4 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -600,7 +600,8 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
     /* tm = *localtime(&t); */
     /* printf("start PDC_Data_Server_region_release %02d:%02d:%02d\n", tm.tm_hour, tm.tm_min, tm.tm_sec); */
 
-    ndim = in->region.ndim;
+    out->ret = 0;
+    ndim     = in->region.ndim;
 
     // Convert transferred lock region to structure
     PDC_init_region_list(&request_region);
-- 
2.43.0


From 6bde5dcd3d23b273fc274f026ed48f6f7b814aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 49/85] fix: a client waiting for a region lock gets it when,
 and only when, it becomes free

---
 .../pdc_server_region/pdc_server_data.c       | 56 +++++++++++++++----
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 64001c4..531f71e 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -540,14 +540,54 @@ done:
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Hand a region that nobody has locked (any more) over to the first client that waits for its lock
+ *
+ * \param  obj_reg[IN]     Regions of the object
+ * \param  region[IN]      Region whose lock was released
+ */
+static void
+grant_region_lock_request(data_server_region_t *obj_reg, region_list_t *region)
+{
+    region_list_t *   elt, map_region;
+    region_buf_map_t *map;
+    region_lock_out_t out;
+
+    DL_FOREACH(obj_reg->region_lock_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1)
+            return;
+    }
+    DL_FOREACH(obj_reg->region_lock_request_head, elt)
+    {
+        if (is_region_identical(region, elt) == 1)
+            break;
+    }
+    if (elt == NULL)
+        return;
+
+    DL_DELETE(obj_reg->region_lock_request_head, elt);
+    DL_FOREACH(obj_reg->region_buf_map_head, map)
+    {
+        PDC_region_transfer_t_to_list_t(&(map->remote_region_unit), &map_region);
+        if (PDC_is_same_region_list(&map_region, elt) == 1) {
+            elt->reg_dirty_from_buf = 1;
+            hg_atomic_incr32(&(elt->buf_map_refcount));
+        }
+    }
+    DL_APPEND(obj_reg->region_lock_head, elt);
+
+    out.ret = 1;
+    HG_Respond(elt->lock_handle, NULL, NULL, &out);
+    HG_Destroy(elt->lock_handle);
+}
+
 perr_t
 PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
 {
     perr_t                ret_value = SUCCEED;
     region_list_t *       request_region;
-    region_list_t *       elt, *tmp;
     data_server_region_t *new_obj_reg;
-    region_lock_out_t     out;
 
     FUNC_ENTER(NULL);
 
@@ -562,16 +602,7 @@ PDC_Server_release_lock_request(uint64_t obj_id, struct pdc_region_info *region)
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&lock_request_mutex_g);
 #endif
-    DL_FOREACH_SAFE(new_obj_reg->region_lock_request_head, elt, tmp)
-    {
-        if (is_region_identical(request_region, elt) == 1) {
-            out.ret = 1;
-            HG_Respond(elt->lock_handle, NULL, NULL, &out);
-            HG_Destroy(elt->lock_handle);
-            DL_DELETE(new_obj_reg->region_lock_request_head, elt);
-            free(elt);
-        }
-    }
+    grant_region_lock_request(new_obj_reg, request_region);
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&lock_request_mutex_g);
 #endif
@@ -660,6 +691,7 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
         goto done;
     }
     out->ret = 1;
+    grant_region_lock_request(obj_reg, &request_region);
 
 done:
     /* t = time(NULL); */
-- 
2.43.0


From 95c95d4f00261c8de03c21eefe4943f2fbbac47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 50/85] fix: setting the dimensions of a 4-D object loses the
 third and fourth

---
 src/api/pdc_client_connect.c                  | 3 +++
 src/server/include/pdc_client_server_common.h | 6 ++++++
 src/server/pdc_client_server_common.c         | 5 ++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 82a9cd1..77f9a31 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2601,6 +2601,9 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     if (in.ndim >= 3) {
         in.dims2 = dims[2];
     }
+    if (in.ndim >= 4) {
+        in.dims3 = dims[3];
+    }
 
     hg_ret = HG_Forward(obj_reset_dims_handle, obj_reset_dims_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..6d03a47 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -706,6 +706,7 @@ typedef struct {
     uint64_t          dims0;
     uint64_t          dims1;
     uint64_t          dims2;
+    uint64_t          dims3;
     int32_t           ndim;
 } obj_reset_dims_in_t;
 
@@ -2355,6 +2356,11 @@ hg_proc_obj_reset_dims_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
+    ret = hg_proc_uint64_t(proc, &struct_data->dims3);
+    if (ret != HG_SUCCESS) {
+        // HG_LOG_ERROR("Proc error");
+        return ret;
+    }
     return ret;
 }
 
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index aa8336b..5a3f3a4 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1785,9 +1785,12 @@ HG_TEST_RPC_CB(obj_reset_dims, handle)
         if (in.ndim >= 2) {
             query_result->dims[1] = in.dims1;
         }
-        if (in.ndim == 3) {
+        if (in.ndim >= 3) {
             query_result->dims[2] = in.dims2;
         }
+        if (in.ndim >= 4) {
+            query_result->dims[3] = in.dims3;
+        }
     }
     else {
         out.ret = 1;
-- 
2.43.0


From 45349f37d13a9f52c432d567e230eebf788b884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 51/85] fix: looking up a short key in the radix tree reads
 past its end

---
 src/commons/collections/art.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..37572f1 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -327,6 +327,9 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
             if (prefix_len != min(MAX_PREFIX_LEN, n->partial_len))
                 return NULL;
             depth = depth + n->partial_len;
+            // The optimistic comparison stops at MAX_PREFIX_LEN, the key may end before the prefix does
+            if (depth > key_len)
+                return NULL;
         }
 
         // Recursively search
@@ -893,6 +896,9 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
             return NULL;
         }
         depth = depth + n->partial_len;
+        // The optimistic comparison stops at MAX_PREFIX_LEN, the key may end before the prefix does
+        if (depth > key_len)
+            return NULL;
     }
 
     // Find child node
@@ -1085,6 +1091,9 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
 
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
+            // The prefix of this node diverges from the key before either ends
+            if (depth > key_len)
+                return 0;
         }
 
         // Recursively search
-- 
2.43.0


From 3ce646a6172225bfec9ccebd83fd0165ae342a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 52/85] fix: a query for * finds every key or value instead of
 crashing client and server

---
 src/commons/index/dart/dart_core.c | 9 ++++++---
 src/commons/utils/string_utils.c   | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index f975477..693e957 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -494,11 +494,14 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         char *   is_used = (char *)calloc(dart_g->num_server, sizeof(char));
         out[0]           = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
 
-        for (i = 0; i < 3 * region_size; i++) {
-            uint64_t vnode = i < region_size ? region_start + i : alter_start + i - region_size;
+        // An empty token does not even tell the first character: every region can hold keywords.
+        int      is_any    = token[0] == '\0';
+        uint64_t num_vnode = is_any ? dart_g->num_vnode : 3 * region_size;
+        for (i = 0; i < num_vnode; i++) {
+            uint64_t vnode = i < region_size || is_any ? region_start + i : alter_start + i - region_size;
             uint64_t srvId = get_server_id_by_vnode_id(dart_g, vnode % dart_g->num_vnode);
             if (is_used[srvId] == 0) {
-                is_used[srvId]      = 1;
+                is_used[srvId]     = 1;
                 out[0][num_srvs++] = srvId;
             }
         }
diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..ebf8703 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -77,6 +77,10 @@ pattern_type_t
 determine_pattern_type(const char *pattern)
 {
 
+    // A single * is a prefix pattern with an empty prefix, there is nothing between two of them
+    if (pattern != NULL && equals(pattern, "*")) {
+        return PATTERN_PREFIX;
+    }
     if (startsWith(pattern, "*")) {
         if (endsWith(pattern, "*")) {
             return PATTERN_MIDDLE;
-- 
2.43.0


From 90115c6e941bac2e72369fe42915b148e3483da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 53/85] fix: an index query that is not of the form key=value
 fails instead of crashing

---
 src/api/pdc_client_connect.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 77f9a31..b592c93 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8763,6 +8763,12 @@ PDC_Client_search_obj_ref_through_dart(dart_hash_algo_t hash_algo, char *query_s
     char *         affix   = NULL;
     dart_op_type_t dart_op;
 
+    if (k_query == NULL || v_query == NULL) {
+        printf("==PDC_CLIENT[%d]: query [%s] is not of the form key=value\n", pdc_client_mpi_rank_g, query_string);
+        ret_value = FAIL;
+        return ret_value;
+    }
+
     pattern_type_t dart_query_type = determine_pattern_type(k_query);
     switch (dart_query_type) {
         case PATTERN_EXACT:
-- 
2.43.0


From 9061a462c2ec476ac78652faa584bf190a4544f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:56 +0000
Subject: [PATCH 54/85] fix: PDCobj_flush_start never flushes the object

---
 src/api/pdc_obj/pdc_obj.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 157a302..9b72f9f 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -451,12 +451,21 @@ PDC_obj_close(struct _pdc_obj_info *op)
 perr_t
 PDCobj_flush_start(pdcid_t obj_id)
 {
-    perr_t ret_value = SUCCEED;
+    perr_t                ret_value = SUCCEED;
+    struct _pdc_id_info * id_info;
+    struct _pdc_obj_info *obj;
 
     FUNC_ENTER(NULL);
 
-    PDC_Client_flush_obj(obj_id);
+    id_info = PDC_find_id(obj_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
+    obj = (struct _pdc_obj_info *)(id_info->obj_ptr);
 
+    // The servers know the object by its global ID
+    ret_value = PDC_Client_flush_obj(obj->obj_info_pub->meta_id);
+
+done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From 853a3ce4a6be3f348a80abf99c5640d44929f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 55/85] fix: PDCcont_open_col opens a container that does not
 exist

---
 src/api/pdc_client_connect.c | 8 +++++---
 src/api/pdc_obj/pdc_cont.c   | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b592c93..15686d9 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -5700,11 +5700,13 @@ PDC_Client_query_container_name_col(const char *cont_name, uint64_t *cont_meta_i
 #ifdef ENABLE_MPI
     if (pdc_client_mpi_rank_g == 0) {
         ret_value = PDC_Client_query_container_name(cont_name, cont_meta_id);
-        if (ret_value != SUCCEED)
-            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error with PDC_Client_query_container_name",
-                        pdc_client_mpi_rank_g);
     }
 
+    MPI_Bcast(&ret_value, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
+    if (ret_value != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error with PDC_Client_query_container_name",
+                    pdc_client_mpi_rank_g);
+
     MPI_Bcast(cont_meta_id, 1, MPI_LONG_LONG, 0, PDC_CLIENT_COMM_WORLD_g);
 #else
     PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: Calling MPI collective operation without enabling MPI!",
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 937315a..6f1e4cd 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -305,6 +305,9 @@ PDCcont_open_col(const char *cont_name, pdcid_t pdc)
     ret = PDC_Client_query_container_name_col(cont_name, &cont_meta_id);
     if (ret == FAIL)
         PGOTO_ERROR(0, "query container name failed");
+    if (cont_meta_id == 0)
+        PGOTO_ERROR(0, "query container not found");
+
     cont_id   = PDC_cont_create_local(pdc, cont_name, cont_meta_id);
     ret_value = cont_id;
 
-- 
2.43.0


From 80b86ff9c10c8519c42414553ef664657fd5793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 56/85] fix: PDCobj_open_col crashes when the object does not
 exist

---
 src/api/pdc_client_connect.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 15686d9..6ba01d5 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2443,6 +2443,9 @@ PDC_Client_query_metadata_name_timestep_agg(const char *obj_name, int time_step,
                                             uint32_t *metadata_server_id)
 {
     perr_t ret_value = SUCCEED;
+#ifdef ENABLE_MPI
+    int found = 0;
+#endif
 
     FUNC_ENTER(NULL);
 
@@ -2454,6 +2457,15 @@ PDC_Client_query_metadata_name_timestep_agg(const char *obj_name, int time_step,
     if (ret_value != SUCCEED)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - ERROR with query [%s]", pdc_client_mpi_rank_g, obj_name);
 
+    // The object may not exist
+    if (pdc_client_mpi_rank_g == 0)
+        found = (*out != NULL);
+    MPI_Bcast(&found, 1, MPI_INT, 0, PDC_CLIENT_COMM_WORLD_g);
+    if (!found) {
+        *out = NULL;
+        PGOTO_DONE(ret_value);
+    }
+
     if (pdc_client_mpi_rank_g != 0)
         *out = (pdc_metadata_t *)calloc(1, sizeof(pdc_metadata_t));
 
-- 
2.43.0


From 4aaa9cec1278304784f7459ca1327f7aaf212425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 57/85] fix: PDCobj_create_mpi crashes when the object cannot
 be created

---
 src/api/pdc_obj/pdc_mpi.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_obj/pdc_mpi.c b/src/api/pdc_obj/pdc_mpi.c
index 4db4d04..89de864 100644
--- a/src/api/pdc_obj/pdc_mpi.c
+++ b/src/api/pdc_obj/pdc_mpi.c
@@ -35,7 +35,7 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     pdcid_t               ret_value = SUCCEED;
     struct _pdc_obj_info *p         = NULL;
     struct _pdc_id_info * id_info   = NULL;
-    int                   rank;
+    int                   rank, created, all_created;
 
     FUNC_ENTER(NULL);
 
@@ -46,6 +46,15 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     else
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_LOCAL);
 
+    // No process gets an object if one of them could not create it
+    created = (ret_value != 0);
+    MPI_Allreduce(&created, &all_created, 1, MPI_INT, MPI_MIN, comm);
+    if (!all_created) {
+        if (created)
+            PDCobj_close(ret_value);
+        PGOTO_ERROR(0, "Unable to create object [%s] on all processes", obj_name);
+    }
+
     id_info = PDC_find_id(ret_value);
     p       = (struct _pdc_obj_info *)(id_info->obj_ptr);
 
@@ -56,6 +65,8 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     // printf("PDCobj_create_mpi: obj partition for %s is %u @ rank %d\n", obj_name, (unsigned)
     // (((pdc_metadata_t *)p->metadata)->region_partition),rank);
     // PDC_Client_attach_metadata_to_local_obj((char *)obj_name, p->meta_id, p->cont->meta_id, p);
+
+done:
     FUNC_LEAVE(ret_value);
 }
 
-- 
2.43.0


From ed6266134b9ff8ca915715936afbfe9ade385b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 58/85] fix: a collective index search that fails on the sender
 succeeds with undefined results

---
 src/api/pdc_client_connect.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 6ba01d5..8eeab3d 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -9379,9 +9379,9 @@ PDC_Client_search_obj_ref_through_dart_mpi(dart_hash_algo_t hash_algo, char *que
         return ret_value;
     }
 
-    int       n_obj = 0;
-    uint64_t *dart_out;
-    double    stime = 0.0, duration = 0.0;
+    int       n_obj    = 0;
+    uint64_t *dart_out = NULL;
+    double    stime    = 0.0, duration = 0.0;
 
     // Let's calcualte an approprate root.
     // FIXME: needs to be examined and fixed. Currently, first_sender_global_rank is different in different
@@ -9400,7 +9400,8 @@ PDC_Client_search_obj_ref_through_dart_mpi(dart_hash_algo_t hash_algo, char *que
 
     // let the root send the query
     if (pdc_client_mpi_rank_g == first_sender_global_rank) {
-        PDC_Client_search_obj_ref_through_dart(hash_algo, query_string, ref_type, &n_obj, &dart_out);
+        ret_value =
+            PDC_Client_search_obj_ref_through_dart(hash_algo, query_string, ref_type, &n_obj, &dart_out);
     }
 
     duration = MPI_Wtime() - stime;
@@ -9412,6 +9413,14 @@ PDC_Client_search_obj_ref_through_dart_mpi(dart_hash_algo_t hash_algo, char *que
     MPI_Barrier(world_comm);
     stime = MPI_Wtime();
 
+    // All ranks return the status of the query that was sent.
+    MPI_Bcast(&ret_value, 1, MPI_INT, first_sender_global_rank, world_comm);
+    if (ret_value != SUCCEED) {
+        *n_res = 0;
+        *out   = NULL;
+        return ret_value;
+    }
+
     // Now, let's broadcast the result to all other ranks.
     _standard_bcast_result(first_sender_global_rank, &n_obj, &dart_out, world_comm);
 
-- 
2.43.0


From e5b8cdf6e7e5fac983101ff81a4a77dcfb8cf3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 59/85] fix: querying an object on all servers takes one
 server's answer for the connection to another

---
 src/api/pdc_client_connect.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 8eeab3d..4e5eba2 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2296,8 +2296,15 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
 
     FUNC_ENTER(NULL);
 
+    *out                  = NULL;
     metadata_query_handle = (hg_handle_t *)malloc(sizeof(hg_handle_t) * pdc_server_num_g);
 
+    // Connect to all servers before there is a request whose response could be taken for theirs
+    for (server_id = 0; server_id < (uint32_t)pdc_server_num_g; server_id++) {
+        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
+            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
+    }
+
     // Fill input structure
     in.obj_name   = obj_name;
     in.time_step  = 0;
@@ -2313,9 +2320,6 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
         // Debug statistics for counting number of messages sent to each server.
         debug_server_id_count[server_id]++;
 
-        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
-            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
-
         HG_Create(send_context_g, pdc_server_info_g[server_id].addr, metadata_query_register_id_g,
                   &metadata_query_handle[server_id]);
 
-- 
2.43.0


From 3e1ee6a4a9900a505ef950a39f86ba5f1b967f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 60/85] fix: pdc_ls and pdc_export cannot read the containers
 of a checkpoint and read unfinished ones

---
 src/tools/pdc_export.c | 30 +++++++++++++++++++++++++++++-
 src/tools/pdc_ls.c     | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/tools/pdc_export.c b/src/tools/pdc_export.c
index 3614fa9..519bd6f 100644
--- a/src/tools/pdc_export.c
+++ b/src/tools/pdc_export.c
@@ -143,6 +143,14 @@ int    pdc_server_rank_g = 0;
 int    pdc_server_size_g = 1;
 double total_mem_usage_g = 0.0;
 
+// A checkpoint file that is still being written (or was left unfinished) ends in ".new"
+static int
+is_checkpoint(const char *name)
+{
+    size_t len = strlen(name);
+    return strstr(name, "metadata_checkpoint.") != NULL && (len < 4 || strcmp(name + len - 4, ".new") != 0);
+}
+
 static void pdc_ls(FileNameNode *file_name_node, int argc, char *argv[]);
 
 int
@@ -168,7 +176,7 @@ main(int argc, char *argv[])
         d = opendir(argv[1]);
         if (d) {
             while ((dir = readdir(d)) != NULL) {
-                if (strstr(dir->d_name, "metadata_checkpoint.")) {
+                if (is_checkpoint(dir->d_name)) {
                     char  last = argv[1][strlen(argv[1]) - 1];
                     char *full_path;
                     if (last == '/') {
@@ -413,6 +421,26 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 printf("Read failed for cont_entry\n");
             }
 
+            // Skip the members and kv tags of the container
+            fseek(file, sizeof(uint64_t) * cont_entry->n_obj, SEEK_CUR);
+            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+                printf("Read failed for container n_kvtag\n");
+                return;
+            }
+            for (j = 0; j < n_kvtag; j++) {
+                uint32_t value_size = 0;
+                if (fread(&key_len, sizeof(int), 1, file) != 1) {
+                    printf("Read failed for container key_len\n");
+                    return;
+                }
+                fseek(file, key_len, SEEK_CUR);
+                if (fread(&value_size, sizeof(uint32_t), 1, file) != 1) {
+                    printf("Read failed for container kvtag size\n");
+                    return;
+                }
+                fseek(file, sizeof(int8_t) + value_size, SEEK_CUR);
+            }
+
             n_cont--;
         } // End while
         if (fread(&n_entry, sizeof(int), 1, file) != 1) {
diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index c480029..bf24401 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -122,6 +122,14 @@ isDir(const char *fileName)
     return S_ISREG(path.st_mode);
 }
 
+// A checkpoint file that is still being written (or was left unfinished) ends in ".new"
+static int
+is_checkpoint(const char *name)
+{
+    size_t len = strlen(name);
+    return strstr(name, "metadata_checkpoint.") != NULL && (len < 4 || strcmp(name + len - 4, ".new") != 0);
+}
+
 static void pdc_ls(FileNameNode *file_name_node, int argc, char *argv[]);
 
 int
@@ -156,7 +164,7 @@ main(int argc, char *argv[])
                     /* printf("%s\n", tmp); */
 
                     while ((direc = readdir(d1)) != NULL) { // go into it and go for checkpoint files again
-                        if (strstr(direc->d_name, "metadata_checkpoint.")) {
+                        if (is_checkpoint(direc->d_name)) {
                             // printf("getting checkpoints\n");
                             char last = argv[1][strlen(argv[1]) - 1];
                             if (last == '/') {
@@ -194,7 +202,7 @@ main(int argc, char *argv[])
                     }
                     closedir(d1);
                 }
-                if (strstr(dir->d_name, "metadata_checkpoint.")) {
+                if (is_checkpoint(dir->d_name)) {
                     printf("%s\n", dir->d_name);
                     char last = argv[1][strlen(argv[1]) - 1];
                     if (last == '/') {
@@ -472,6 +480,26 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 return;
             }
 
+            // Skip the members and kv tags of the container
+            fseek(file, sizeof(uint64_t) * cont_entry->n_obj, SEEK_CUR);
+            if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+                printf("Read failed for container n_kvtag\n");
+                return;
+            }
+            for (j = 0; j < n_kvtag; j++) {
+                uint32_t value_size = 0;
+                if (fread(&key_len, sizeof(int), 1, file) != 1) {
+                    printf("Read failed for container key_len\n");
+                    return;
+                }
+                fseek(file, key_len, SEEK_CUR);
+                if (fread(&value_size, sizeof(uint32_t), 1, file) != 1) {
+                    printf("Read failed for container kvtag size\n");
+                    return;
+                }
+                fseek(file, sizeof(int8_t) + value_size, SEEK_CUR);
+            }
+
             n_cont--;
         } // End while
         if (fread(&n_entry, sizeof(int), 1, file) != 1) {
-- 
2.43.0


From ca51cb51b08dd2419122c361fe167da9e5c1217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 61/85] fix: pdc_ls writes its output to a closed file and
 takes names as a format string

---
 src/tools/pdc_ls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index bf24401..67c926e 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -894,6 +894,10 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     FILE *fp;
     if (output_file_name) {
         fp = fopen(output_file_name, "w");
+        if (fp == NULL) {
+            printf("Unable to open output file [%s]\n", output_file_name);
+            return;
+        }
         printf("Output to [%s]\n", output_file_name);
     }
     else {
@@ -916,12 +920,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 all_n_region_total);
         cJSON_AddStringToObject(output, "summary", buf);
     }
-    if (output_file_name) {
-        fclose(fp);
-    }
     char *json_string = cJSON_Print(output);
-    fprintf(fp, json_string);
-    fprintf(fp, "\n");
+    fprintf(fp, "%s\n", json_string);
     if (output_file_name)
         fclose(fp);
 }
-- 
2.43.0


From 3ff92acfefa2b2aab74f1255997f901feeb52e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 62/85] fix: pdc_ls takes files for directories, and misses the
 checkpoints of a path ending in '/'

---
 src/tools/pdc_ls.c | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 67c926e..01173c7 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -118,8 +118,9 @@ int
 isDir(const char *fileName)
 {
     struct stat path;
-    stat(fileName, &path);
-    return S_ISREG(path.st_mode);
+    if (stat(fileName, &path) != 0)
+        return 0;
+    return S_ISDIR(path.st_mode);
 }
 
 // A checkpoint file that is still being written (or was left unfinished) ends in ".new"
@@ -151,39 +152,23 @@ main(int argc, char *argv[])
 
         if (d) {
             while ((dir = readdir(d)) != NULL) {
+                // appends path together
+                char tmp[1024];
+                snprintf(tmp, sizeof(tmp), "%s/%s", argv[1], dir->d_name);
                 // if it's directory
-                if (!isDir(dir->d_name)) {
+                if (isDir(tmp)) {
                     if (strstr(dir->d_name, ".")) {
                         // ignore parent and current directories
                         continue;
                     }
-                    // appends path together
-                    char tmp[1024];
-                    sprintf(tmp, "%s/%s", argv[1], dir->d_name);
                     DIR *d1 = opendir(tmp);
-                    /* printf("%s\n", tmp); */
+                    if (d1 == NULL)
+                        continue;
 
                     while ((direc = readdir(d1)) != NULL) { // go into it and go for checkpoint files again
                         if (is_checkpoint(direc->d_name)) {
-                            // printf("getting checkpoints\n");
-                            char last = argv[1][strlen(argv[1]) - 1];
-                            if (last == '/') {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 1));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, direc->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
-                            else {
-                                full_path = (char *)malloc(sizeof(char) *
-                                                           (strlen(argv[1]) + strlen(direc->d_name) + 2));
-                                strcpy(full_path, argv[1]);
-                                strcat(full_path, "/");
-                                strcat(full_path, dir->d_name);
-                                strcat(full_path, "/");
-                                strcat(full_path, direc->d_name);
-                            }
+                            full_path = (char *)malloc(strlen(tmp) + strlen(direc->d_name) + 2);
+                            sprintf(full_path, "%s/%s", tmp, direc->d_name);
                             if (head == NULL) {
                                 FileNameNode *new_node = (FileNameNode *)malloc(sizeof(FileNameNode));
                                 new_node->file_name    = full_path;
@@ -202,7 +187,7 @@ main(int argc, char *argv[])
                     }
                     closedir(d1);
                 }
-                if (is_checkpoint(dir->d_name)) {
+                else if (is_checkpoint(dir->d_name)) {
                     printf("%s\n", dir->d_name);
                     char last = argv[1][strlen(argv[1]) - 1];
                     if (last == '/') {
-- 
2.43.0


From cec968ec0d809ab95b45f7fbc33133769083135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 63/85] fix: pdc_ls cuts IDs, dimensions and offsets to 32 bits

---
 src/tools/pdc_ls.c | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 01173c7..44a9471 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -4,6 +4,7 @@
 #include <dirent.h>
 #include <regex.h>
 #include <time.h>
+#include <inttypes.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 
@@ -363,7 +364,7 @@ void
 pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 {
     char *wanted_name      = NULL;
-    int   wanted_id        = 0;
+    char *wanted_id        = NULL;
     char *output_file_name = NULL;
     int   list_names       = 0;
     int   list_ids         = 0;
@@ -382,7 +383,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (strcmp(argv[arg_index], "-i") == 0) {
             arg_index++;
-            wanted_id = atoi(argv[arg_index]);
+            wanted_id = argv[arg_index];
         }
         else if (strcmp(argv[arg_index], "-json") == 0) {
             arg_index++;
@@ -740,13 +741,13 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     cJSON *         count_arr_json   = NULL;
     cJSON *         start_arr_json   = NULL;
     cJSON *         output           = cJSON_CreateObject();
-    int             prev_cont_id     = -1;
+    uint64_t        prev_cont_id     = UINT64_MAX;
     char            buf[1024];
     while (cur_m_node != NULL) {
         cur_metadata = cur_m_node->metadata_ptr;
         if (prev_cont_id != cur_metadata->cont_id) {
             cont_id_json = cJSON_CreateArray();
-            sprintf(buf, "cont_id: %d", cur_metadata->cont_id);
+            sprintf(buf, "cont_id: %" PRIu64, cur_metadata->cont_id);
             cJSON_AddItemToObject(output, buf, cont_id_json);
         }
         add_obj = 1;
@@ -766,15 +767,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 }
             }
 
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
+            reti = regcomp(&regex, wanted_id, 0);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
@@ -802,15 +802,14 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         }
         else if (wanted_id) {
             int matched_id = 0;
-            sprintf(buf, "%d", wanted_id);
-            reti = regcomp(&regex, buf, 0);
+            sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
+            reti = regcomp(&regex, wanted_id, 0);
             if (reti) {
-                if (wanted_id == cur_metadata->obj_id) {
+                if (strcmp(wanted_id, buf) == 0) {
                     matched_id = 1;
                 }
             }
             else {
-                sprintf(buf, "%d", cur_metadata->obj_id);
                 reti = regexec(&regex, buf, 0, NULL, 0);
                 if (!reti) {
                     matched_id = 1;
@@ -823,7 +822,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 add(obj_names, cur_metadata->obj_name);
             }
             if (list_ids) {
-                sprintf(buf, "%d", cur_metadata->obj_id);
+                sprintf(buf, "%" PRIu64, cur_metadata->obj_id);
                 add(obj_ids, buf);
             }
             cur_obj_json = cJSON_CreateObject();
@@ -835,11 +834,11 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             data_type = get_data_type(cur_metadata->data_type);
             cJSON_AddStringToObject(cur_obj_json, "data_type", data_type);
             cJSON_AddNumberToObject(cur_obj_json, "num_dims", cur_metadata->ndim);
-            int dims[cur_metadata->ndim];
+            double dims[DIM_MAX];
             for (int i = 0; i < (cur_metadata->ndim); i++) {
                 dims[i] = (cur_metadata->dims)[i];
             }
-            dim_arr_json = cJSON_CreateIntArray(dims, cur_metadata->ndim);
+            dim_arr_json = cJSON_CreateDoubleArray(dims, cur_metadata->ndim);
             cJSON_AddItemToObject(cur_obj_json, "dims", dim_arr_json);
             cJSON_AddNumberToObject(cur_obj_json, "time_step", cur_metadata->time_step);
 
@@ -851,15 +850,15 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                 cJSON_AddStringToObject(region_info_json, "storage_loc", cur_region->storage_location);
                 cJSON_AddNumberToObject(region_info_json, "offset", cur_region->offset);
                 cJSON_AddNumberToObject(region_info_json, "num_dims", cur_region->ndim);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
+                for (int i = 0; i < (cur_region->ndim); i++) {
                     dims[i] = (cur_region->start)[i];
                 }
-                start_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                start_arr_json = cJSON_CreateDoubleArray(dims, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "start", start_arr_json);
-                for (int i = 0; i < (cur_metadata->ndim); i++) {
+                for (int i = 0; i < (cur_region->ndim); i++) {
                     dims[i] = (cur_region->count)[i];
                 }
-                count_arr_json = cJSON_CreateIntArray(dims, cur_region->ndim);
+                count_arr_json = cJSON_CreateDoubleArray(dims, cur_region->ndim);
                 cJSON_AddItemToObject(region_info_json, "count", count_arr_json);
                 cJSON_AddNumberToObject(region_info_json, "unit_size", cur_region->unit_size);
                 data_type = get_data_loc_type(cur_region->data_loc_type);
@@ -893,11 +892,11 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cJSON_AddItemToObject(output, "all_obj_names", all_names_json);
     }
     if (list_ids) {
-        int id_arr[obj_ids->length];
+        double *id_arr = (double *)malloc(sizeof(double) * (obj_ids->length + 1));
         for (int i = 0; i < obj_ids->length; i++) {
-            id_arr[i] = atoi(obj_ids->items[i]);
+            id_arr[i] = strtod(obj_ids->items[i], NULL);
         }
-        cJSON *all_ids_json = cJSON_CreateIntArray(id_arr, obj_ids->length);
+        cJSON *all_ids_json = cJSON_CreateDoubleArray(id_arr, obj_ids->length);
         cJSON_AddItemToObject(output, "all_obj_ids", all_ids_json);
     }
     if (summary) {
-- 
2.43.0


From c0aecb688cdd6932aa0ed8c8aa72fd3e3177cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 64/85] fix: pdc_ls crashes when the data of an object is on
 another server than its metadata

---
 src/tools/pdc_ls.c | 48 +++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 44a9471..556a45f 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -45,6 +45,7 @@ typedef struct pdc_metadata_query_buf {
 } pdc_metadata_query_buf;
 
 typedef struct RegionNode {
+    uint64_t           obj_id;
     region_list_t *    region_list;
     struct RegionNode *next;
 } RegionNode;
@@ -309,11 +310,11 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)calloc(1, sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)calloc(1, sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
 
@@ -340,7 +341,7 @@ do_transfer_request_metadata(int pdc_server_size_input, char *checkpoint)
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
@@ -413,7 +414,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 
     char *        filename;
     MetadataNode *metadata_head   = NULL;
-    RegionNode *  cur_region_node = NULL;
+    RegionNode *  all_regions     = NULL;
+    RegionNode *  all_regions_end = NULL;
     FileNameNode *cur_file_node   = file_name_node;
 
     int all_cont_total     = 0;
@@ -654,30 +656,20 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
             }
-            MetadataNode *wanted_node = metadata_head;
-            while (wanted_node != NULL) {
-                if (wanted_node->metadata_ptr->obj_id == new_obj_reg->obj_id) {
-                    break;
-                }
-                wanted_node = wanted_node->next;
-            }
-            RegionNode *cur_region = wanted_node->region_list_head;
             for (j = 0; j < n_region; j++) {
                 region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
                     printf("Read failed for new_region_list\n");
                 }
                 RegionNode *new_node  = (RegionNode *)malloc(sizeof(RegionNode));
+                new_node->obj_id      = new_obj_reg->obj_id;
                 new_node->region_list = new_region_list;
                 new_node->next        = NULL;
-                if (cur_region == NULL) {
-                    wanted_node->region_list_head = new_node;
-                    cur_region                    = new_node;
-                }
-                else {
-                    cur_region->next = new_node;
-                    cur_region       = new_node;
-                }
+                if (all_regions_end == NULL)
+                    all_regions = new_node;
+                else
+                    all_regions_end->next = new_node;
+                all_regions_end = new_node;
             }
         }
 
@@ -725,6 +717,22 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         cur_file_node = cur_file_node->next;
     }
 
+    // The data of an object may be on another server than its metadata, so in another checkpoint file
+    while (all_regions != NULL) {
+        RegionNode *  region      = all_regions;
+        MetadataNode *wanted_node = metadata_head;
+        all_regions               = region->next;
+        region->next              = NULL;
+        while (wanted_node != NULL && wanted_node->metadata_ptr->obj_id != region->obj_id)
+            wanted_node = wanted_node->next;
+        if (wanted_node != NULL) {
+            RegionNode **link = &wanted_node->region_list_head;
+            while (*link != NULL)
+                link = &(*link)->next;
+            *link = region;
+        }
+    }
+
     // Create JSON
     MetadataNode *  cur_m_node = metadata_head;
     RegionNode *    cur_r_node;
-- 
2.43.0


From 4e2bfa2555c7014eeb4eb5e39a8f32dfe55ca9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 65/85] fix: pdc_ls lists a container several times when its
 objects were not created one after the other

---
 src/tools/pdc_ls.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index 556a45f..f920a96 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -754,9 +754,12 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
     while (cur_m_node != NULL) {
         cur_metadata = cur_m_node->metadata_ptr;
         if (prev_cont_id != cur_metadata->cont_id) {
-            cont_id_json = cJSON_CreateArray();
             sprintf(buf, "cont_id: %" PRIu64, cur_metadata->cont_id);
-            cJSON_AddItemToObject(output, buf, cont_id_json);
+            cont_id_json = cJSON_GetObjectItem(output, buf);
+            if (cont_id_json == NULL) {
+                cont_id_json = cJSON_CreateArray();
+                cJSON_AddItemToObject(output, buf, cont_id_json);
+            }
         }
         add_obj = 1;
         if (wanted_name && wanted_id) {
-- 
2.43.0


From 89285f9d3d5f8df5bf051b5b5e861bfa73b56049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 66/85] fix: pdc_ls counts some regions twice and the others
 not at all

---
 src/tools/pdc_ls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index f920a96..d23f25f 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -632,7 +632,6 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
                     }
 
                 } // For j
-                total_region += n_region;
             } // For i
 
             nobj += count;
@@ -656,6 +655,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
             }
+            total_region += n_region;
             for (j = 0; j < n_region; j++) {
                 region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
-- 
2.43.0


From f32b32a38cd802ac4281dbbd4e1a5674dce60c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 67/85] fix: pdc_ls loops forever on a checkpoint it cannot
 open

---
 src/tools/pdc_ls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/pdc_ls.c b/src/tools/pdc_ls.c
index d23f25f..f3fa12b 100644
--- a/src/tools/pdc_ls.c
+++ b/src/tools/pdc_ls.c
@@ -428,6 +428,7 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
 
     while (cur_file_node != NULL) {
         filename = cur_file_node->file_name;
+        memset(&attr, 0, sizeof(attr));
         stat(filename, &attr);
         printf("[INFO] File [%s] last modified at: %s", filename, ctime(&attr.st_mtime));
         // Start server restart code
@@ -446,7 +447,8 @@ pdc_ls(FileNameNode *file_name_node, int argc, char *argv[])
         if (file == NULL) {
             printf("==PDC_SERVER[%d]: %s -  Checkpoint file open FAILED [%s]!", pdc_server_rank_g, __func__,
                    filename);
-            ret_value = FAIL;
+            ret_value     = FAIL;
+            cur_file_node = cur_file_node->next;
             continue;
         }
 
-- 
2.43.0


From e6fb5a3b467b428f64e2ded16cb8c5179138cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 68/85] fix: a checkpoint by way of tmpfs replaces the previous
 one before it is complete

---
 src/server/pdc_server.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 9e94bf0..7a61b76 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -1285,13 +1285,12 @@ PDC_Server_checkpoint()
         fflush(stdout);
     }
 
+    // The previous checkpoint stays in place until this one is complete
+    snprintf(checkpoint_file_new, sizeof(checkpoint_file_new), "%s.new", checkpoint_file);
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
-    else {
-        // The previous checkpoint stays in place until this one is complete
-        snprintf(checkpoint_file_new, sizeof(checkpoint_file_new), "%s.new", checkpoint_file);
+    else
         file = fopen(checkpoint_file_new, "w+");
-    }
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1414,11 +1413,6 @@ PDC_Server_checkpoint()
     if (fclose(file) != 0)
         checkpoint_failed = 1;
 
-    if (!use_tmpfs && (checkpoint_failed || rename(checkpoint_file_new, checkpoint_file) != 0)) {
-        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error", pdc_server_rank_g, __func__);
-        ret_value = FAIL;
-    }
-
     if (use_tmpfs) {
 #ifdef PDC_TIMING
         gettimeofday(&pdc_timer_end_rank, 0);
@@ -1426,8 +1420,14 @@ PDC_Server_checkpoint()
         printf("==PDC_SERVER[%4d]: write to tmpfs took %7.2fs\n", pdc_server_rank_g, checkpoint_time);
 #endif
         // Copy from /tmp to target under $PDC_TMPDIR
-        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
-        system(cmd);
+        snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file_new);
+        if (!checkpoint_failed && system(cmd) != 0)
+            checkpoint_failed = 1;
+    }
+
+    if (checkpoint_failed || rename(checkpoint_file_new, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
     }
 
 #ifdef PDC_TIMING
-- 
2.43.0


From 17797baca0fe2400eed917176e0bdde69717065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 69/85] fix: a full deque loses its elements when it grows, and
 an empty one cannot be used again

---
 src/commons/collections/pdc_deque.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..d67cb28 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -22,11 +22,10 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
         exit(1);
     }
 
-    size_t i = 0;
-    while (deque->head != deque->tail) {
-        new_data[i++] = deque->data[deque->head];
-        deque->head   = (deque->head + 1) % deque->capacity;
-    }
+    // When the deque is full, head and tail are equal, so count the elements
+    size_t i;
+    for (i = 0; i < deque->size; i++)
+        new_data[i] = deque->data[(deque->head + i) % deque->capacity];
 
     free(deque->data);
     deque->data     = new_data;
@@ -66,7 +65,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +80,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From e1bf0271ed9ef1a7ab49c2451a779b76e8b52db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 70/85] fix: adding to a vector with a small capacity or
 expansion factor writes past its end

---
 src/commons/collections/pdc_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..f91efb4 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -57,6 +57,9 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
         vector->capacity *= vector->expansion_factor;
+        // A small capacity or factor may not have made room
+        if (vector->capacity <= vector->item_count)
+            vector->capacity = vector->item_count + 1;
         vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
         if (vector->items == NULL) {
             return;
-- 
2.43.0


From 96cbcd7e87aeeb855cffde276b9cadb39382a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:41 +0000
Subject: [PATCH 71/85] fix: set_to_array aborts on an empty set

---
 src/commons/collections/pdc_set.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commons/collections/pdc_set.c b/src/commons/collections/pdc_set.c
index 8ec6524..de1af77 100644
--- a/src/commons/collections/pdc_set.c
+++ b/src/commons/collections/pdc_set.c
@@ -393,7 +393,8 @@ set_to_array(Set *set)
 
     /* Create an array to hold the set entries */
 
-    array = PDC_malloc(sizeof(SetValue) * set->entries);
+    /* PDC_malloc does not accept 0 */
+    array = PDC_malloc(sizeof(SetValue) * (set->entries > 0 ? set->entries : 1));
 
     if (array == NULL) {
         return NULL;
-- 
2.43.0


From 47ea0b38b459ff50a7c6659443746c29852da4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 72/85] fix: only one of several threads that wait for a thread
 pool is woken

---
 src/commons/utils/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..f1dd864 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -369,7 +369,7 @@ thread_do(struct thread *thread_p)
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working--;
             if (!thpool_p->num_threads_working) {
-                pthread_cond_signal(&thpool_p->threads_all_idle);
+                pthread_cond_broadcast(&thpool_p->threads_all_idle);
             }
             pthread_mutex_unlock(&thpool_p->thcount_lock);
         }
-- 
2.43.0


From da39ab9f3a706dcf5aeaa062e7c98a0e104c806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 73/85] fix: thpool_destroy frees the pool while its last
 thread still uses it

---
 src/commons/utils/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index f1dd864..97b48df 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -227,6 +227,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread may still hold the lock */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
-- 
2.43.0


From 43c420388fe4bd07f8328887bca1ba8425526731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 74/85] fix: destroying a thread pool stops the threads of all
 other pools

---
 src/commons/utils/thpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 97b48df..8c93e99 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,7 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
 static volatile int threads_on_hold;
 
 /* ========================== STRUCTURES ============================ */
@@ -79,6 +78,7 @@ typedef struct thread {
 /* Threadpool */
 typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
+    volatile int    keepalive;           /* 0: the threads are to end */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
@@ -112,8 +112,7 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
+    threads_on_hold = 0;
 
     if (num_threads < 0) {
         num_threads = 0;
@@ -126,6 +125,7 @@ thpool_init(int num_threads)
         err("thpool_init(): Could not allocate memory for thread pool\n");
         return NULL;
     }
+    thpool_p->keepalive           = 1;
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
 
@@ -208,7 +208,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -349,11 +349,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
-- 
2.43.0


From 5fade8613e4a0511d16fb2a81ff39eb878e911ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 75/85] fix: is_value_in_range crashes if there is no such tag

---
 src/commons/utils/query_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..69e340e 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -340,7 +340,9 @@ int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
     const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
-    char *      value      = get_value(matched_kv, '=');
+    if (matched_kv == NULL)
+        return 0;
+    char *value = get_value(matched_kv, '=');
     int         v          = atoi(value);
     return (v >= from && v <= to);
 }
-- 
2.43.0


From 69ace30e94119a384030e363ae1ec3b2b5ed83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:57 +0000
Subject: [PATCH 76/85] fix: substring writes out of bounds if it starts behind
 the end of the string

---
 src/commons/utils/string_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index ebf8703..8215268 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -125,6 +125,11 @@ substring(const char *str, int start, int end)
         end = str_len;
     }
 
+    // Nothing is left of a string that ends before start
+    if (start > str_len) {
+        return NULL;
+    }
+
     // Calculate the length of the substring
     int substr_len = end - start;
 
-- 
2.43.0


From 920812a78fdd4c1e1fff826d7f9f0087582c661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:58 +0000
Subject: [PATCH 77/85] fix: histograms of constant or narrow data hang or
 crash, and their bins leave gaps

---
 src/api/pdc_analysis/pdc_hist_pkg.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index 75343a1..c3d3d92 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -120,7 +120,18 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
         PGOTO_DONE(NULL);
 
     bin_incr = floor_power_of_2((max - min) / (nbin - 2)); // Excluding first and last bin (open ended)
-    nbin     = ceil((max - min) / bin_incr);
+    if (bin_incr <= 0)
+        bin_incr = 1.0;
+    // Bins cannot be narrower than the distance between values of this size
+    while (min + bin_incr == min || max - bin_incr == max)
+        bin_incr *= 2.0;
+
+    // Bins start at multiples of their width, so those of other histograms nest
+    min_bin = (floor(min / bin_incr) + 1) * bin_incr;
+    max_bin = (ceil(max / bin_incr) - 1) * bin_incr;
+    if (max_bin < min_bin)
+        max_bin = min_bin;
+    nbin = (max_bin - min_bin) / bin_incr + 2;
 
     hist        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
     hist->incr  = bin_incr;
@@ -129,16 +140,6 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     hist->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     hist->nbin  = nbin;
 
-    min_bin = floor(min);
-    while (min_bin <= min) {
-        min_bin += bin_incr;
-    }
-
-    max_bin = ceil(max);
-    while (max_bin >= max) {
-        max_bin -= bin_incr;
-    }
-
     hist->range[0] = min_bin;
     hist->range[1] = min_bin;
 
-- 
2.43.0


From 03dfaa7668574aa160856d832748b1143b49075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:11 +0000
Subject: [PATCH 78/85] fix: a merged histogram does not span what its first
 part does

---
 src/api/pdc_analysis/pdc_hist_pkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index c3d3d92..38410b6 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -366,8 +366,8 @@ PDC_merge_hist(int n, pdc_histogram_t **hists)
     if (n == 0 || NULL == hists)
         PGOTO_DONE(NULL);
 
-    tot_min  = hists[0]->range[1];
-    tot_max  = hists[0]->range[2 * hists[0]->nbin - 2];
+    tot_min  = hists[0]->range[0];
+    tot_max  = hists[0]->range[2 * hists[0]->nbin - 1];
     incr_max = hists[0]->incr;
 
     for (i = 1; i < n; i++) {
-- 
2.43.0


From 2e7fa74ff0f14989a8825b3ac2002c69995cab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:23 +0000
Subject: [PATCH 79/85] fix: the bloom filters start with random counters and
 lose them when they grow

---
 src/server/dablooms/pdc_dablooms.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..007eb71 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -38,7 +38,16 @@ free_bitmap(bitmap_t *bitmap)
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    char *array;
+
+    /* the counters start at zero, and keep their values when the bitmap grows */
+    if ((array = PDC_calloc(new_size, sizeof(char))) == NULL)
+        return NULL;
+    if (bitmap->array != NULL) {
+        memcpy(array, bitmap->array, bitmap->bytes < new_size ? bitmap->bytes : new_size);
+        free(bitmap->array);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
-- 
2.43.0


From e4d96776bf9fa82bcfc3814879c4cdafaaba4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:34 +0000
Subject: [PATCH 80/85] fix: server: make a new table of clients when a larger
 application connects

A server kept the table of the previous application's clients unless the connection was one made at the
start of the new application.  A client of a larger application that first reached the server later on had
its address written beyond the end of the old table.
---
 src/server/pdc_server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 7a61b76..7f98c09 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -277,7 +277,9 @@ PDC_Server_get_client_addr(const struct hg_cb_info *callback_info)
     hg_thread_mutex_lock(&pdc_client_addr_mutex_g);
 #endif
 
-    if (pdc_client_info_g && in->is_init == 1) {
+    // A different number of clients also means another application, whose first connection to this server
+    // need not be one made at its start
+    if (pdc_client_info_g && (in->is_init == 1 || in->nclient != pdc_client_num_g)) {
         if (is_debug_g && pdc_server_rank_g == 0) {
             printf("==PDC_SERVER[%d]: new application run detected, create new client info\n",
                    pdc_server_rank_g);
-- 
2.43.0


From 414c1bd20ada8ecef01661cf3d07dd21bc40475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:19 +0000
Subject: [PATCH 81/85] fix: PDCobj_set_dims refuses another number of
 dimensions and keeps the old ones when it fails

It went on after finding that the number of dimensions is wrong and wrote
past the end of the object's dimensions, and when the server refused the
change the local handle had the new dimensions all the same.
---
 src/api/pdc_obj/pdc_obj.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b72f9f..b60fd8a 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -999,16 +999,19 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
     if (ndim != (int)((pdc_metadata_t *)(object->metadata))->ndim) {
         fprintf(stderr, "PDCobj_set_dims: input dimension size is wrong %d != %d @ line %d\n", ndim,
                 (int)object->obj_pt->obj_prop_pub->ndim, __LINE__);
+        ret_value = FAIL;
+        goto done;
     }
-    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
-    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
     PDC_Client_obj_reset_dims(object->obj_info_pub->name, object->obj_pt->time_step, ndim, dims, &reset);
 
     if (!reset) {
         // Server rejects reset object dims for some reasons, so we close this operation.
         ret_value = FAIL;
+        goto done;
     }
+    memcpy(object->obj_pt->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
+    memcpy(((pdc_metadata_t *)(object->metadata))->dims, dims, ndim * sizeof(uint64_t));
 
 done:
     FUNC_LEAVE(ret_value);
-- 
2.43.0


From ecec0ed48b76872f194e62e9babeb572509ecf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:52 +0000
Subject: [PATCH 82/85] fix: starting a batch with a transfer that is already
 started refuses it before touching the others

The transfers before it in the batch were prepared and attached to their
objects but never started, so that they could not be started any more.
---
 src/api/pdc_region/pdc_region_transfer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 54384ed..dfb0a67 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1348,11 +1348,16 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     int                                  write_size = 0, read_size = 0, posix_size = 0;
     pdc_transfer_request_start_all_pkg **write_transfer_requests = NULL, **read_transfer_requests = NULL;
     pdcid_t *                            posix_transfer_request_id;
+    struct _pdc_id_info *                transferinfo;
 
     FUNC_ENTER(NULL);
     for (i = 0; i < size; ++i) {
-        if (PDC_find_id(transfer_request_id[i]) == NULL)
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
             PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
+        // Refuse the batch before any of its requests is prepared
+        if (((pdc_transfer_request *)(transferinfo->obj_ptr))->metadata_id != NULL)
+            PGOTO_ERROR(FAIL, "attempt to start existing transfer request");
     }
     // Split write and read requests. Handle them separately.
     // printf("PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
-- 
2.43.0


From a601bec8e41d492db42cf72edb262d0ddd7b1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 83/85] fix: a transfer that was part of a batch can be started
 again on its own

Starting it alone left the batch's buffers in the request, which the first
wait had released already, so the second one freed them again.
---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index dfb0a67..68812c9 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1487,6 +1487,10 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
 
     attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
 
+    // Buffers of an earlier start in a batch were released by the wait for it
+    transfer_request->bulk_buf     = NULL;
+    transfer_request->bulk_buf_ref = NULL;
+
     // Pack local region to a contiguous memory buffer
     unit = transfer_request->unit;
 
-- 
2.43.0


From 99a029ec6c849e248f28dbb618b182480f6f3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:20 +0000
Subject: [PATCH 84/85] fix: the server refuses text tags that do not fit
 instead of writing past them

Adding a tag, updating an object and adding container tags appended to
arrays of fixed size without looking at the room left in them.
---
 src/server/pdc_server_metadata.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index ca7168c..45dee9e 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -729,11 +729,18 @@ PDC_Server_add_tag_metadata(metadata_add_tag_in_t *in, metadata_add_tag_out_t *o
                 // obj_name change is done through client with delete and add operation.
                 if (in->new_tag != NULL && in->new_tag[0] != 0 &&
                     !(in->new_tag[0] == ' ' && in->new_tag[1] == 0)) {
-                    // add a ',' to separate different tags
-                    target->tags[strlen(target->tags) + 1] = 0;
-                    target->tags[strlen(target->tags)]     = ',';
-                    strcat(target->tags, in->new_tag);
-                    out->ret = 1;
+                    // The tags and their separator have to fit
+                    if (strlen(target->tags) + strlen(in->new_tag) + 2 > TAG_LEN_MAX) {
+                        printf("==PDC_SERVER: no room for another tag!\n");
+                        out->ret = -1;
+                    }
+                    else {
+                        // add a ',' to separate different tags
+                        target->tags[strlen(target->tags) + 1] = 0;
+                        target->tags[strlen(target->tags)]     = ',';
+                        strcat(target->tags, in->new_tag);
+                        out->ret = 1;
+                    }
                 }
                 else
                     out->ret = -1;
@@ -840,7 +847,15 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
         if (lookup_value != NULL) {
             // Check if there exist metadata identical to current one
             target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-            if (target != NULL) {
+            if (target != NULL && (strlen(in->new_metadata.app_name) >= sizeof(target->app_name) ||
+                                   strlen(in->new_metadata.data_location) >= sizeof(target->data_location) ||
+                                   (strcmp(in->new_metadata.tags, " ") != 0 &&
+                                    strlen(target->tags) + strlen(in->new_metadata.tags) + 2 > TAG_LEN_MAX))) {
+                printf("==PDC_SERVER: no room for the update!\n");
+                ret_value = -1;
+                out->ret  = -1;
+            }
+            else if (target != NULL) {
                 // Check and find valid update fields
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
@@ -2559,6 +2574,11 @@ PDC_Server_container_add_tags(uint64_t cont_id, char *tags)
     if (cont_entry != NULL) {
 
         if (tags != NULL) {
+            if (strlen(cont_entry->tags) + strlen(tags) + 1 > sizeof(cont_entry->tags)) {
+                printf("==PDC_SERVER[%d]: %s - no room for the tags!\n", pdc_server_rank_g, __func__);
+                ret_value = FAIL;
+                goto done;
+            }
             strcat(cont_entry->tags, tags);
         }
     }
-- 
2.43.0


From 151ca2f49bc8238ac9f36c7f3e92aaddbe2ed1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:16 +0000
Subject: [PATCH 85/85] fix: names and attributes that do not fit are refused

Creating, opening or deleting an object and creating a container copied
names and texts of any length into arrays of fixed size, on the clients and
on the servers.
---
 src/api/pdc_client_connect.c     |  4 ++++
 src/api/pdc_obj/pdc_obj.c        |  9 +++++++++
 src/server/pdc_server_metadata.c | 10 ++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 4e5eba2..806b4ad 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2242,6 +2242,8 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     delete_prop = PDC_obj_prop_get_info(obj_delete_prop);
     if (delete_prop == NULL)
         PGOTO_ERROR(FAIL, "cannot locate object property ID");
+    if (strlen(delete_name) >= OBJ_NAME_MAX)
+        PGOTO_ERROR(FAIL, "no object has a name that long");
     // Fill input structure
     in.obj_name  = delete_name;
     in.time_step = delete_prop->time_step;
@@ -2507,6 +2509,8 @@ PDC_Client_create_cont_id(const char *cont_name, pdcid_t cont_create_prop ATTRIB
 
     if (cont_name == NULL)
         PGOTO_ERROR(FAIL, "Cannot create container with empty name");
+    if (strlen(cont_name) >= ADDR_MAX)
+        PGOTO_ERROR(FAIL, "Cannot create container with a name that is too long");
 
     // Fill input structure
     memset(&in, 0, sizeof(in));
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index b60fd8a..b1b54be 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -244,6 +244,15 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (PDC_find_id(obj_prop_id) == NULL)
         PGOTO_ERROR(0, "cannot locate object property ID");
 
+    // What does not fit into the metadata on clients and servers is refused
+    obj_prop = (struct _pdc_obj_prop *)(PDC_find_id(obj_prop_id)->obj_ptr);
+    if (obj_name == NULL || strlen(obj_name) >= OBJ_NAME_MAX ||
+        (obj_prop->app_name != NULL && strlen(obj_prop->app_name) >= OBJ_NAME_MAX) ||
+        (obj_prop->tags != NULL && strlen(obj_prop->tags) >= TAG_LEN_MAX) ||
+        (obj_prop->data_loc != NULL && strlen(obj_prop->data_loc) >= ADDR_MAX) ||
+        obj_prop->obj_prop_pub->ndim > DIM_MAX)
+        PGOTO_ERROR(0, "object name or attribute is too long");
+
     p = (struct _pdc_obj_info *)PDC_malloc(sizeof(struct _pdc_obj_info));
     if (!p)
         PGOTO_ERROR(0, "PDC object memory allocation failed");
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 45dee9e..8ab1446 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1955,6 +1955,11 @@ PDC_Server_search_with_name_timestep(const char *obj_name, uint32_t hash_key, ui
 
     name = obj_name;
 
+    // No object has a name that does not fit
+    if (strlen(name) >= sizeof(metadata.obj_name)) {
+        ret_value = FAIL;
+        goto done;
+    }
     strcpy(metadata.obj_name, name);
     metadata.time_step = ts;
 
@@ -2006,6 +2011,11 @@ PDC_Server_search_with_name_hash(const char *obj_name, uint32_t hash_key, pdc_me
 
     name = obj_name;
 
+    // No object has a name that does not fit
+    if (strlen(name) >= sizeof(metadata.obj_name)) {
+        ret_value = FAIL;
+        goto done;
+    }
     strcpy(metadata.obj_name, name);
     // TODO: currently PDC_Client_query_metadata_name_timestep is not taking timestep for querying
     metadata.time_step = 0;
-- 
2.43.0

