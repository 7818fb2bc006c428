From 61fde7b6e1078fc68218ca1bfa247ea6133c5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 01/24] fix: terminate the groups array of a single node in
 num_ports_factors

(*groups[1]) dereferences the pointer behind the caller's variable instead of
storing into the second element of the array.
---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From bb770f43fbfad08b5bed5c4f15e01544af0b35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 02/24] fix: polling mode of the executor suspends while a
 barrier is pending

The barrier test functions return 1 while the barrier is NOT complete, the
executor treated that as completion and suspended forever once it was.
---
 src/mpi/ext_mpi_native_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..86dc198 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -331,7 +331,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
         } else {
@@ -346,7 +346,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
         } else {
@@ -364,7 +364,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
           return 0;
         } else {
           socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
-- 
2.43.0


From 82f910e3a2dd77ba0c43ba1d49c0e3cca8fe5d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 03/24] fix: broadcast EXT_MPI_DEBUG from rank 0 to all ranks

The second broadcast repeated ext_mpi_verbose, so only rank 0 skipped the
collective self-check and the ranks ran different collectives.
---
 src/mpi/ext_mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..e975553 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -82,7 +82,7 @@ static int read_env() {
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From ef8460d0c56a8096172dffb02799171c8063ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 04/24] fix: MPI_Testall reports pending requests when statuses
 are ignored

The flag pointer was cleared instead of the flag.
---
 src/mpi/ext_mpi_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..dd597ca 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -232,7 +232,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) flag=0;
+      if (!lflag) *flag=0;
     }
   }else{
     *flag = 1;
-- 
2.43.0


From d2dd4e20cfa17ad3e114ef10b00d13998843326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/24] fix: MPI_Testsome reports no completion while all
 requests are pending

---
 src/mpi/ext_mpi_interface.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index dd597ca..97d94da 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -268,16 +268,17 @@ int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int flag, ret;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
   }
+  *outcount = flag;
+  return ret;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
-- 
2.43.0


From d359f7c76c60f708cd0e74416d4b68d60ec44c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 06/24] fix: map MPI_INTEGER8 to MPI_LONG in the Fortran
 wrappers

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From 9d17f95a8a339aff0e4473a30849e3642ffa788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:04 +0000
Subject: [PATCH 07/24] fix: EXT_MPI_Reduce_scatter_init_native continues from
 the current buffer with one task per node

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..51f8364 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From c4f60e487a5ef6e27c5a0c9fe041d6910378fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 08/24] fix: keep the gathered element counts of the column
 ranks in Scatterv and Reduce_scatter plans

---
 src/mpi/ext_mpi_native.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 51f8364..58943af 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1226,8 +1226,8 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts,
     for (i = 0; i < my_cores_per_node_row; i++) {
       local_counts[i] = sendcounts[my_node * my_cores_per_node_row + i];
     }
+    global_counts[0] = j;
   }
-  global_counts[0] = j;
   for (i = 0; i < my_cores_per_node_row * my_cores_per_node_column; i++) {
     local_counts[i] *= type_size;
   }
@@ -1450,8 +1450,8 @@ int EXT_MPI_Reduce_scatter_init_native(
     for (i = 0; i < my_cores_per_node_row; i++) {
       local_counts[i] = recvcounts[my_node * my_cores_per_node_row + i];
     }
+    global_counts[0] = j;
   }
-  global_counts[0] = j;
   for (i = 0; i < my_cores_per_node_row * my_cores_per_node_column; i++) {
     local_counts[i] *= type_size;
   }
-- 
2.43.0


From d6b26b190ef906bcfb5ac86c284906a5d72d747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 09/24] fix: refuse reductions that have no reduction opcode
 instead of using an uninitialised one

---
 src/mpi/ext_mpi_native.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 58943af..804a4e4 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -583,6 +583,7 @@ allreduce_short = 0;
   buffer2 = (char *)malloc(MAX_BUFFER_SIZE);
   if (!buffer2)
     goto error;
+  reduction_op = -1;
   if ((op == MPI_SUM) && (datatype == MPI_DOUBLE)) {
     reduction_op = OPCODE_REDUCE_SUM_DOUBLE;
   }
@@ -595,6 +596,10 @@ allreduce_short = 0;
   if ((op == MPI_SUM) && (datatype == MPI_INT)) {
     reduction_op = OPCODE_REDUCE_SUM_INT;
   }
+  if ((op != MPI_OP_NULL) && (reduction_op < 0)) {
+    printf("reduction operation or datatype not implemented\n");
+    exit(2);
+  }
   MPI_Type_size(datatype, &type_size);
   count *= type_size;
   MPI_Comm_size(comm_row, &my_mpi_size_row);
@@ -1391,6 +1396,7 @@ int EXT_MPI_Reduce_scatter_init_native(
   buffer2 = (char *)malloc(MAX_BUFFER_SIZE);
   if (!buffer2)
     goto error;
+  reduction_op = -1;
   if ((op == MPI_SUM) && (datatype == MPI_DOUBLE)) {
     reduction_op = OPCODE_REDUCE_SUM_DOUBLE;
   }
@@ -1403,6 +1409,10 @@ int EXT_MPI_Reduce_scatter_init_native(
   if ((op == MPI_SUM) && (datatype == MPI_INT)) {
     reduction_op = OPCODE_REDUCE_SUM_INT;
   }
+  if ((op != MPI_OP_NULL) && (reduction_op < 0)) {
+    printf("reduction operation or datatype not implemented\n");
+    exit(2);
+  }
   MPI_Type_size(datatype, &type_size);
   MPI_Comm_size(comm_row, &my_mpi_size_row);
   MPI_Comm_rank(comm_row, &my_mpi_rank_row);
-- 
2.43.0


From a95288330c4ebab7a919f6eb854d719cf465bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 10/24] fix: measure the copyin variants on scratch buffers
 instead of the buffers of the user

---
 src/mpi/cost_copyin_measurement.c | 35 +++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..2dd5069 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -1,4 +1,5 @@
 #include "cost_copyin_measurement.h"
+#include "constants.h"
 #include "ext_mpi_native.h"
 #include "prime_factors.h"
 #include "read_write.h"
@@ -158,6 +159,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *sendbuf_ = NULL, *recvbuf_ = NULL;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -172,12 +174,30 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
     (*copyin_factors)[0] = 1;
     (*copyin_factors)[1] = 0;
   } else {
-    time_min = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
+    // the measurement runs the operation, it must not touch the buffers of the user
+#ifdef GPU_ENABLED
+    if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
+      ext_mpi_gpu_malloc(&recvbuf_, msize + 1);
+      if (sendbuf != recvbuf) ext_mpi_gpu_malloc(&sendbuf_, msize + 1);
+    } else {
+#endif
+      recvbuf_ = calloc(msize + 1, 1);
+      if (sendbuf != recvbuf) sendbuf_ = calloc(msize + 1, 1);
+#ifdef GPU_ENABLED
+    }
+#endif
+    if (sendbuf == recvbuf) sendbuf_ = recvbuf_;
+    if (!sendbuf_ || !recvbuf_) {
+      if (sendbuf_ != recvbuf_) free(sendbuf_);
+      free(recvbuf_);
+      return ERROR_MALLOC;
+    }
+    time_min = allreduce_measurement(sendbuf_, recvbuf_, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
     num_sockets_per_node_min = 1;
     if (*my_cores_per_node_row == mpi_size_row && !one_socket_only) num_sockets_per_node_max = 4;
     for (j = 2; j <= num_sockets_per_node_max; j *= 2){
       if (*num_sockets_per_node == 1 && *my_cores_per_node_row % j == 0) {
-        time = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row/j, comm_column, my_cores_per_node_column, num_active_ports, copyin_method, *copyin_factors, *num_sockets_per_node*j);
+        time = allreduce_measurement(sendbuf_, recvbuf_, count, datatype, op, comm_row, *my_cores_per_node_row/j, comm_column, my_cores_per_node_column, num_active_ports, copyin_method, *copyin_factors, *num_sockets_per_node*j);
         k = time < time_min;
         MPI_Bcast(&k, 1, MPI_INT, 0, comm_row);
         if (k) {
@@ -191,6 +211,17 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
         }
       }
     }
+#ifdef GPU_ENABLED
+    if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
+      if (sendbuf_ != recvbuf_) ext_mpi_gpu_free(sendbuf_);
+      ext_mpi_gpu_free(recvbuf_);
+    } else {
+#endif
+      if (sendbuf_ != recvbuf_) free(sendbuf_);
+      free(recvbuf_);
+#ifdef GPU_ENABLED
+    }
+#endif
     MPI_Bcast(&num_sockets_per_node_min, 1, MPI_INT, 0, comm_row);
     *copyin_method = copyin_method_min;
     MPI_Bcast(copyin_method, 1, MPI_INT, 0, comm_row);
-- 
2.43.0


From 47f278eec457c1456b12a27710081f78d45e71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 11/24] fix: run the self-check of the persistent collectives
 on buffers of its own

---
 src/mpi/debug_persistent.c | 129 +++++++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 42 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 6bdfdc9..ad8b364 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -12,7 +12,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
                                   MPI_Datatype recvtype, MPI_Comm comm,
                                   MPI_Info info, int *handle) {
   int comm_size_row, type_size, i;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, max_sendcount, max_displs, j, k;
 #ifdef GPU_ENABLED
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
@@ -44,6 +44,9 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     ext_mpi_gpu_malloc(&recvbuf_ref, j * type_size);
     if (!recvbuf_ref)
       goto error;
+    ext_mpi_gpu_malloc(&recvbuf_h, j * type_size);
+    if (!recvbuf_h)
+      goto error;
     ext_mpi_gpu_malloc(&sendbuf_h, sendcount * type_size);
     if (!sendbuf_h)
       goto error;
@@ -58,12 +61,15 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     }
     ext_mpi_gpu_memcpy_hd(sendbuf_h, sendbuf_hh, sendcount * type_size);
     ext_mpi_gpu_memcpy_hd(recvbuf_ref, recvbuf_hh, j * type_size);
-    ext_mpi_gpu_memcpy_hd(recvbuf, recvbuf_hh, j * type_size);
+    ext_mpi_gpu_memcpy_hd(recvbuf_h, recvbuf_hh, j * type_size);
   } else {
 #endif
     recvbuf_ref = (void *)malloc(j * type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf_h = (void *)malloc(j * type_size);
+    if (!recvbuf_h)
+      goto error;
     sendbuf_h = (void *)malloc(sendcount * type_size);
     if (!sendbuf_h)
       goto error;
@@ -74,7 +80,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   }
 #endif
   MPI_Allgatherv(sendbuf_h, sendcount, sendtype, recvbuf_ref, recvcounts, displs, recvtype, comm);
-  if (ext_mpi_allgatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm, info, handle) < 0)
+  if (ext_mpi_allgatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf_h, recvcounts, displs, recvtype, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -84,7 +90,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     goto error;
 #ifdef GPU_ENABLED
   if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
-    ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf, j * type_size);
+    ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf_h, j * type_size);
     ext_mpi_gpu_memcpy_dh(recvbuf_ref_hh, recvbuf_ref, j * type_size);
     k = 0;
     for (j = 0; j < comm_size_row; j++) {
@@ -107,7 +113,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
       for (i = 0; i < (int)((recvcounts[j] * type_size) / sizeof(long int));
            i++) {
         if (((long int *)
-                 recvbuf)[(displs[j] * type_size) / sizeof(long int) + i] !=
+                 recvbuf_h)[(displs[j] * type_size) / sizeof(long int) + i] !=
             ((long int *)
                  recvbuf_ref)[(displs[j] * type_size) / sizeof(long int) + i]) {
           k = 1;
@@ -126,6 +132,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 #ifdef GPU_ENABLED
   if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
     ext_mpi_gpu_free(sendbuf_h);
+    ext_mpi_gpu_free(recvbuf_h);
     ext_mpi_gpu_free(recvbuf_ref);
     free(recvbuf_ref_hh);
     free(recvbuf_hh);
@@ -133,6 +140,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   } else {
 #endif
     free(sendbuf_h);
+    free(recvbuf_h);
     free(recvbuf_ref);
 #ifdef GPU_ENABLED
   }
@@ -140,6 +148,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -151,7 +160,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
                                MPI_Comm comm,
                                MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, max_sendcount, max_displs, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -168,6 +177,9 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   recvbuf_ref = (void *)malloc(j * type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf_h = (void *)malloc(j * type_size);
+  if (!recvbuf_h)
+    goto error;
   sendbuf_h = (void *)malloc(sendcount * type_size);
   if (!sendbuf_h)
     goto error;
@@ -175,7 +187,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
     ((long int *)sendbuf_h)[i] = world_rank * max_sendcount + i;
   }
   MPI_Gatherv(sendbuf_h, sendcount, sendtype, recvbuf_ref, recvcounts, displs, recvtype, root, comm);
-  if (ext_mpi_gatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, handle) < 0)
+  if (ext_mpi_gatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf_h, recvcounts, displs, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -189,7 +201,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
       for (i = 0; i < (int)((recvcounts[j] * type_size) / (int)sizeof(long int));
            i++) {
         if (((long int *)
-                 recvbuf)[(displs[j] * type_size) / (int)sizeof(long int) + i] !=
+                 recvbuf_h)[(displs[j] * type_size) / (int)sizeof(long int) + i] !=
             ((long int *)
                  recvbuf_ref)[(displs[j] * type_size) / (int)sizeof(long int) + i]) {
           k = 1;
@@ -202,10 +214,12 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
     }
   }
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -214,7 +228,7 @@ int ext_mpi_reduce_scatter_init_debug(
     const void *sendbuf, void *recvbuf, const int *recvcounts, MPI_Datatype datatype,
     MPI_Op op, MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, type_size, i, j;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, tsize;
 #ifdef GPU_ENABLED
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
@@ -243,6 +257,7 @@ int ext_mpi_reduce_scatter_init_debug(
         ((int *)sendbuf_hh)[tsize-1] = world_rank * tsize + tsize - 1;
       }
       ext_mpi_gpu_malloc(&recvbuf_ref, recvcounts[comm_rank_row] * type_size);
+      ext_mpi_gpu_malloc(&recvbuf_h, recvcounts[comm_rank_row] * type_size);
       ext_mpi_gpu_malloc(&sendbuf_h, tsize * type_size);
       ext_mpi_gpu_memcpy_hd(sendbuf_h, sendbuf_hh, tsize * type_size);
     } else {
@@ -250,6 +265,9 @@ int ext_mpi_reduce_scatter_init_debug(
       recvbuf_ref = malloc(recvcounts[comm_rank_row] * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf_h = (void *)malloc(recvcounts[comm_rank_row] * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = malloc(tsize * type_size);
       if (!sendbuf_h)
         goto error;
@@ -264,11 +282,11 @@ int ext_mpi_reduce_scatter_init_debug(
 #endif
     if (type_size == sizeof(long int)){
       MPI_Reduce_scatter(sendbuf_h, recvbuf_ref, recvcounts, MPI_LONG, op, comm);
-      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf, recvcounts, MPI_LONG, op, comm, info, handle) < 0)
+      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf_h, recvcounts, MPI_LONG, op, comm, info, handle) < 0)
         goto error;
     }else{
       MPI_Reduce_scatter(sendbuf_h, recvbuf_ref, recvcounts, MPI_INT, op, comm);
-      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf, recvcounts, MPI_INT, op, comm, info, handle) < 0)
+      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf_h, recvcounts, MPI_INT, op, comm, info, handle) < 0)
         goto error;
     }
     if (EXT_MPI_Start(*handle) < 0)
@@ -282,7 +300,7 @@ int ext_mpi_reduce_scatter_init_debug(
       recvbuf_hh = malloc(recvcounts[comm_rank_row] * type_size);
       if (!recvbuf_hh)
         goto error;
-      ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf, recvcounts[comm_rank_row] * type_size);
+      ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf_h, recvcounts[comm_rank_row] * type_size);
       ext_mpi_gpu_memcpy_dh(recvbuf_ref_hh, recvbuf_ref, recvcounts[comm_rank_row] * type_size);
       j = 0;
       for (i = 0; i < (recvcounts[comm_rank_row] * type_size) / (int)sizeof(long int); i++) {
@@ -299,21 +317,23 @@ int ext_mpi_reduce_scatter_init_debug(
       free(recvbuf_hh);
       free(recvbuf_ref_hh);
       ext_mpi_gpu_free(sendbuf_h);
+      ext_mpi_gpu_free(recvbuf_h);
       ext_mpi_gpu_free(recvbuf_ref);
     } else {
 #endif
       j = 0;
       for (i = 0; i < (recvcounts[comm_rank_row] * type_size) / (int)sizeof(long int); i++) {
-        if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+        if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
           j = 1;
         }
       }
       if ((recvcounts[comm_rank_row] * type_size) % (int)sizeof(long int)){
-        if (((int *)recvbuf)[recvcounts[comm_rank_row]-1] != ((int *)recvbuf_ref)[recvcounts[comm_rank_row]-1]) {
+        if (((int *)recvbuf_h)[recvcounts[comm_rank_row]-1] != ((int *)recvbuf_ref)[recvcounts[comm_rank_row]-1]) {
           j = 1;
         }
       }
       free(sendbuf_h);
+      free(recvbuf_h);
       free(recvbuf_ref);
 #ifdef GPU_ENABLED
     }
@@ -326,6 +346,7 @@ int ext_mpi_reduce_scatter_init_debug(
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -336,7 +357,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -344,6 +365,9 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   recvbuf_ref = (long int *)malloc(recvcount * type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf_h = (void *)malloc(recvcount * type_size);
+  if (!recvbuf_h)
+    goto error;
   sendbuf_h = malloc(
       (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
   if (!sendbuf_h)
@@ -360,7 +384,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     }
   }
   MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
-  if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
+  if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf_h, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -370,7 +394,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     goto error;
   j = 0;
   for (i = 0; i < (recvcount * type_size) / (int)sizeof(long int); i++) {
-    if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+    if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
       j = 1;
     }
   }
@@ -379,10 +403,12 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     exit(1);
   }
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -397,7 +423,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -416,6 +442,9 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     ext_mpi_gpu_malloc(&recvbuf_ref, count * type_size);
     if (!recvbuf_ref)
       goto error;
+    ext_mpi_gpu_malloc(&recvbuf_h, count * type_size);
+    if (!recvbuf_h)
+      goto error;
     if (sendbuf != MPI_IN_PLACE){
       ext_mpi_gpu_malloc(&sendbuf_h, count * type_size);
       if (!sendbuf_h)
@@ -428,7 +457,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
         ((int *)sendbuf_hh)[count-1] = world_rankd * count + count - 1;
       }
       ext_mpi_gpu_memcpy_hd(sendbuf_h, sendbuf_hh, count * type_size);
-      ext_mpi_gpu_memcpy_hd(recvbuf, recvbuf_hh, count * type_size);
+      ext_mpi_gpu_memcpy_hd(recvbuf_h, recvbuf_hh, count * type_size);
     }else{
       sendbuf_h = MPI_IN_PLACE;
       for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
@@ -437,16 +466,16 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       if ((count * type_size) % (int)sizeof(long int)){
         ((int *)recvbuf_hh)[count-1] = world_rankd * count + count - 1;
       }
-      ext_mpi_gpu_memcpy_hd(recvbuf, recvbuf_hh, count * type_size);
+      ext_mpi_gpu_memcpy_hd(recvbuf_h, recvbuf_hh, count * type_size);
       ext_mpi_gpu_memcpy_hd(recvbuf_ref, recvbuf_hh, count * type_size);
     }
     if (type_size == sizeof(long int)){
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_LONG, op, comm_row);
-      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_LONG, op, comm, info, handle)<0)
+      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_LONG, op, comm, info, handle)<0)
         goto error;
     }else{
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_INT, op, comm_row);
-      if (etx_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_INT, op, comm, info, handle)<0)
+      if (etx_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_INT, op, comm, info, handle)<0)
         goto error;
     }
     if (EXT_MPI_Start(*handle) < 0)
@@ -455,7 +484,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       goto error;
     if (EXT_MPI_Done(*handle) < 0)
       goto error;
-    ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf, count * type_size);
+    ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf_h, count * type_size);
     ext_mpi_gpu_memcpy_dh(recvbuf_ref_hh, recvbuf_ref, count * type_size);
     j = 0;
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
@@ -479,13 +508,16 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     recvbuf_ref = (long int *)malloc(count * type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf_h = (void *)malloc(count * type_size);
+    if (!recvbuf_h)
+      goto error;
     if (sendbuf != MPI_IN_PLACE){
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
       for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
         ((long int *)sendbuf_h)[i] = world_rankd * count + i;
-        ((long int *)recvbuf)[i] = -1;
+        ((long int *)recvbuf_h)[i] = -1;
       }
       if ((count * type_size) % (int)sizeof(long int)){
         ((int *)sendbuf_h)[count-1] = world_rankd * count + count - 1;
@@ -493,19 +525,19 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     }else{
       sendbuf_h = MPI_IN_PLACE;
       for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-        ((long int *)recvbuf)[i] = ((long int *)recvbuf_ref)[i] = world_rankd * count + i;
+        ((long int *)recvbuf_h)[i] = ((long int *)recvbuf_ref)[i] = world_rankd * count + i;
       }
       if ((count * type_size) % (int)sizeof(long int)){
-        ((int *)recvbuf)[count-1] = ((int *)recvbuf_ref)[count-1] = world_rankd * count + count - 1;
+        ((int *)recvbuf_h)[count-1] = ((int *)recvbuf_ref)[count-1] = world_rankd * count + count - 1;
       }
     }
     if (type_size == sizeof(long int)){
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_LONG, op, comm);
-      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_LONG, op, comm, info, handle)<0)
+      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_LONG, op, comm, info, handle)<0)
         goto error;
     }else{
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_INT, op, comm);
-      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_INT, op, comm, info, handle)<0)
+      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_INT, op, comm, info, handle)<0)
         goto error;
     }
     if (EXT_MPI_Start(*handle) < 0)
@@ -516,18 +548,19 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       goto error;
     j = 0;
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+      if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
         j = 1;
       }
     }
     if ((count * type_size) % (int)sizeof(long int)){
-      if (((int *)recvbuf)[count-1] != ((int *)recvbuf_ref)[count-1]){
+      if (((int *)recvbuf_h)[count-1] != ((int *)recvbuf_ref)[count-1]){
         j = 1;
       }
     }
     if (sendbuf != MPI_IN_PLACE){
       free(sendbuf_h);
     }
+    free(recvbuf_h);
     free(recvbuf_ref);
 #ifdef GPU_ENABLED
   }
@@ -549,13 +582,16 @@ error:
     sendbuf_h = NULL;
   }
   if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
+    ext_mpi_gpu_free(recvbuf_h);
     ext_mpi_gpu_free(recvbuf_ref);
+    recvbuf_h = NULL;
     recvbuf_ref = NULL;
   }
 #endif
   if (sendbuf != MPI_IN_PLACE){
     free(sendbuf_h);
   }
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -569,7 +605,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_h = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -584,6 +620,9 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       ext_mpi_gpu_malloc(&recvbuf_ref, count * type_size);
       if (!recvbuf_ref)
         goto error;
+      ext_mpi_gpu_malloc(&recvbuf_h, count * type_size);
+      if (!recvbuf_h)
+        goto error;
       recvbuf_hh = (long int *)malloc(count * type_size);
       if (!recvbuf_hh)
         goto error;
@@ -597,12 +636,12 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
         ((long int *)sendbuf_hh)[i] = world_rankd * count + i;
       }
       ext_mpi_gpu_memcpy_hd(sendbuf_h, sendbuf_hh, count * type_size);
-      if (ext_mpi_reduce_init_general(sendbuf, recvbuf, count, MPI_LONG, op, root, comm, info, handle) < 0)
+      if (ext_mpi_reduce_init_general(sendbuf, recvbuf_h, count, MPI_LONG, op, root, comm, info, handle) < 0)
         goto error;
       MPI_Reduce(sendbuf, recvbuf_ref, count, MPI_LONG, MPI_SUM, root, comm);
       EXT_MPI_Start(*handle);
       EXT_MPI_Wait(*handle);
-      ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf, count * type_size);
+      ext_mpi_gpu_memcpy_dh(recvbuf_hh, recvbuf_h, count * type_size);
       ext_mpi_gpu_memcpy_dh(recvbuf_ref_hh, recvbuf_ref, count * type_size);
       j = 0;
       if (root == comm_rank_row) {
@@ -615,6 +654,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       free(recvbuf_ref_hh);
       free(recvbuf_hh);
       free(sendbuf_hh);
+      ext_mpi_gpu_free(recvbuf_h);
       ext_mpi_gpu_free(recvbuf_ref);
       ext_mpi_gpu_free(sendbuf_h);
     } else {
@@ -622,6 +662,9 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       recvbuf_ref = (long int *)malloc(count * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf_h = (void *)malloc(count * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
@@ -633,11 +676,11 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       }
       if (type_size == sizeof(long int)){
         MPI_Reduce(sendbuf_h, recvbuf_ref, count, MPI_LONG, op, root, comm);
-        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf, count, MPI_LONG, op, root, comm, info, handle) < 0)
+        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf_h, count, MPI_LONG, op, root, comm, info, handle) < 0)
           goto error;
       }else{
         MPI_Reduce(sendbuf_h, recvbuf_ref, count, MPI_INT, op, root, comm);
-        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf, count, MPI_INT, op, root, comm, info, handle) < 0)
+        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf_h, count, MPI_INT, op, root, comm, info, handle) < 0)
           goto error;
       }
       if (EXT_MPI_Start(*handle) < 0)
@@ -649,17 +692,18 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       j = 0;
       if (root == comm_rank_row) {
         for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-          if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+          if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
             j = 1;
           }
         }
         if ((count * type_size) % (int)sizeof(long int)){
-          if (((int *)recvbuf)[count-1] != ((int *)recvbuf_ref)[count-1]) {
+          if (((int *)recvbuf_h)[count-1] != ((int *)recvbuf_ref)[count-1]) {
             j = 1;
           }
         }
       }
       free(sendbuf_h);
+      free(recvbuf_h);
       free(recvbuf_ref);
 #ifdef GPU_ENABLED
     }
@@ -676,13 +720,16 @@ error:
   free(recvbuf_hh);
   free(sendbuf_hh);
   if (ext_mpi_gpu_is_device_pointer(sendbuf)){
+    ext_mpi_gpu_free(recvbuf_h);
     ext_mpi_gpu_free(recvbuf_ref);
+    recvbuf_h = NULL;
     recvbuf_ref = NULL;
     ext_mpi_gpu_free(sendbuf_h);
     sendbuf_h = NULL;
   }
 #endif
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -741,13 +788,12 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
     buffer_org = (long int *)malloc(count * type_size);
     if (!buffer_org)
       goto error;
-    memcpy(buffer_org, buffer, count * type_size);
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      ((long int *)buffer_ref)[i] = ((long int *)buffer)[i] =
+      ((long int *)buffer_ref)[i] = ((long int *)buffer_org)[i] =
           world_rankd * count + i + 1073;
     }
     MPI_Bcast(buffer_ref, count, datatype, root, comm);
-    if (ext_mpi_bcast_init_general(buffer, count, datatype, root, comm, info, handle) < 0)
+    if (ext_mpi_bcast_init_general(buffer_org, count, datatype, root, comm, info, handle) < 0)
       goto error;
     if (EXT_MPI_Start(*handle) < 0)
       goto error;
@@ -757,11 +803,10 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
       goto error;
     j = 0;
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      if (((long int *)buffer)[i] != ((long int *)buffer_ref)[i]) {
+      if (((long int *)buffer_org)[i] != ((long int *)buffer_ref)[i]) {
         j = 1;
       }
     }
-    memcpy(buffer, buffer_org, count * type_size);
     free(buffer_org);
     free(buffer_ref);
 #ifdef GPU_ENABLED
-- 
2.43.0


From 2b0c7fa6177bc13f19da41d2cc96edd0ef671546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 12/24] fix: use the datatypes and the extent of the operation
 in the Scatterv self-check

---
 src/mpi/debug_persistent.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index ad8b364..32c5302 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -368,8 +368,12 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   recvbuf_h = (void *)malloc(recvcount * type_size);
   if (!recvbuf_h)
     goto error;
-  sendbuf_h = malloc(
-      (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
+  k = 0;
+  for (i = 0; i < comm_size_row; i++) {
+    if (displs[i] + sendcounts[i] > k)
+      k = displs[i] + sendcounts[i];
+  }
+  sendbuf_h = malloc(k * type_size);
   if (!sendbuf_h)
     goto error;
   k = 0;
@@ -383,7 +387,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
           k++;
     }
   }
-  MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
+  MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
   if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf_h, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
-- 
2.43.0


From 16d22ed5ba268eca9c908bc8820f2112d23e8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 13/24] fix: compare the node of the root with the own node in
 the forward and backward interpreters

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..494c376 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From eedcda98c7f14fcf06d6ed563dd9617008a5e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 14/24] fix: copy in the blocks of a rooted operation in the
 order of the algorithm

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..dc856dc 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From 50da5dfc2b098c698f3bd1f68eba73f21791c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 15/24] fix: revert the direction of the ports of Scatterv as
 for Reduce_scatter

---
 src/mpi/ext_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index e975553..a20515b 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -567,9 +567,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
   }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 639df5e7a151468921e7fdd946ca32c4c0e6ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 16/24] fix: set the port of the single node algorithm for
 Gatherv and Bcast

---
 src/mpi/ext_mpi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a20515b..6450015 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -344,6 +344,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
@@ -841,6 +842,7 @@ int ext_mpi_bcast_init_general(void *buffer, int count, MPI_Datatype datatype,
   if (group_size < 0) {
     group_size = ext_mpi_num_ports_factors(count * type_size, 1, comm, my_cores_per_node_row, num_sockets_per_node_, minimum_computation, &num_ports, &groups);
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", count * type_size < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 8ce34823d79fe562f7aed62594a108afd90809a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:23 +0000
Subject: [PATCH 17/24] fix: adapt the ports of Reduce to the number of sockets
 chosen by the measurement

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 6450015..9f0029a 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -774,6 +774,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From 3cdab3d41b33841e7212c4ff480877f9c263df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:16 +0000
Subject: [PATCH 18/24] fix: choose the plan of Scatterv from the largest count
 instead of the local one

---
 src/mpi/ext_mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 9f0029a..eb7005b 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -554,7 +554,7 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
-  rcount = recvcount;
+  PMPI_Allreduce(&recvcount, &rcount, 1, MPI_INT, MPI_MAX, comm);
   minimum_computation = ext_mpi_get_param(ext_mpi_minimum_computation, comm, info, "ext_mpi_minimum_computation", 0);
   group_size = ext_mpi_num_ports_factors_env(comm, ext_mpi_fixed_factors_ports, ext_mpi_fixed_factors_groups, num_ports, groups);
   if (group_size < 0) {
-- 
2.43.0


From 7796c491fc66e22a349a4256b2959ac50b9fbf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 19/24] fix: send from shared memory when the sockets of a node
 read each other's messages

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 804a4e4..28f791d 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -853,7 +853,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && num_sockets_per_node == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 88fd4ae2c60dd6acd202b5d505c019f74ccca474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 20/24] fix: plan for any number of sockets per node, not only
 one, two and four

---
 src/mpi/cost_copyin_measurement.c | 7 +++++++
 src/mpi/num_ports_factors.c       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 2dd5069..fc78529 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -39,6 +39,13 @@ static double execution_time(const void *sendbuf, void *recvbuf, int count, MPI_
     groups_[2] = -2;
     groups_[3] = -2;
     groups_[4] = 0;
+  } else {
+    num_ports_[0] = -(num_sockets_per_node - 1);
+    num_ports_[1] = num_sockets_per_node - 1;
+    num_ports_[2] = 0;
+    groups_[0] = -num_sockets_per_node;
+    groups_[1] = -num_sockets_per_node;
+    groups_[2] = 0;
   }
   MPI_Comm_rank(comm_row, &mpi_rank_row);
   handle = EXT_MPI_Allreduce_init_native(sendbuf, recvbuf, count, datatype, op,
diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index b6ad503..82c61d5 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -60,6 +60,13 @@ void ext_mpi_set_ports_single_node(int num_sockets_per_node, int *num_ports, int
       groups[2] = -2;
       groups[3] = -2;
       groups[4] = 0;
+    } else if (num_sockets_per_node > 2) {
+      num_ports[0] = -(num_sockets_per_node - 1);
+      num_ports[1] = num_sockets_per_node - 1;
+      num_ports[2] = 0;
+      groups[0] = -num_sockets_per_node;
+      groups[1] = -num_sockets_per_node;
+      groups[2] = 0;
     }
   }
 }
-- 
2.43.0


From c1dfe3294dab326cc6c75121e9a05486641c7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:11 +0000
Subject: [PATCH 21/24] fix: use the user's buffers in recursive plans only
 where the layouts agree

---
 src/mpi/ext_mpi_native.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 28f791d..16df88c 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -911,7 +911,7 @@ int EXT_MPI_Gatherv_init_native(
       my_mpi_rank_column, my_mpi_size_column, my_lrank_column, my_lrank_node;
   int *coarse_counts = NULL, *local_counts = NULL, *global_counts = NULL, iret;
   char *buffer1 = NULL, *buffer2 = NULL, *buffer_temp, *str;
-  int nbuffer1 = 0, i, j;
+  int nbuffer1 = 0, i, j, same_counts = 1;
   buffer1 = (char *)malloc(MAX_BUFFER_SIZE);
   if (!buffer1)
     goto error;
@@ -1013,6 +1013,7 @@ int EXT_MPI_Gatherv_init_native(
   nbuffer1 += sprintf(buffer1 + nbuffer1, " PARAMETER MESSAGE_SIZE");
   for (i = 0; i < my_mpi_size_row / my_cores_per_node_row; i++) {
     nbuffer1 += sprintf(buffer1 + nbuffer1, " %d", coarse_counts[i]);
+    if (coarse_counts[i] != coarse_counts[0]) same_counts = 0;
   }
   nbuffer1 += sprintf(buffer1 + nbuffer1, "\n");
   free(coarse_counts);
@@ -1107,7 +1108,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && root < 0 && same_counts){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1130,7 +1131,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && root < 0 && same_counts){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1387,7 +1388,7 @@ int EXT_MPI_Reduce_scatter_init_native(
       my_mpi_rank_column, my_mpi_size_column, my_lrank_column, my_lrank_node;
   int *coarse_counts = NULL, *local_counts = NULL, *global_counts = NULL, iret;
   char *buffer1 = NULL, *buffer2 = NULL, *str, *buffer_temp;
-  int nbuffer1 = 0, i, j;
+  int nbuffer1 = 0, i, j, same_counts = 1;
   int reduction_op;
   struct parameters_block *parameters;
   buffer1 = (char *)malloc(MAX_BUFFER_SIZE);
@@ -1512,6 +1513,7 @@ int EXT_MPI_Reduce_scatter_init_native(
   nbuffer1 += sprintf(buffer1 + nbuffer1, " PARAMETER MESSAGE_SIZE");
   for (i = 0; i < my_mpi_size_row / my_cores_per_node_row; i++) {
     nbuffer1 += sprintf(buffer1 + nbuffer1, " %d", coarse_counts[i]);
+    if (coarse_counts[i] != coarse_counts[0]) same_counts = 0;
   }
   nbuffer1 += sprintf(buffer1 + nbuffer1, "\n");
   free(coarse_counts);
@@ -1621,7 +1623,7 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && same_counts) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From eee6a0350763dfd9d06ad9644716a1b9e8fa30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 22/24] fix: give collectives other than Allreduce a plan of
 their own kind on a node of several sockets

---
 src/mpi/ext_mpi.c           | 5 +++--
 src/mpi/num_ports_factors.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index eb7005b..d9bdf54 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -491,8 +491,9 @@ int ext_mpi_reduce_scatter_init_general(
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
-  if (num_sockets_per_node_ == 1) {
-    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  if (num_sockets_per_node_ == 1 && groups[0] == -1 && groups[1] == 0) {
+    num_ports[0] = num_sockets_per_node > 1 ? 1 - num_sockets_per_node : -1;
+    groups[0] = -num_sockets_per_node;
   }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 82c61d5..e603771 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -120,7 +120,7 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   PMPI_Comm_size(comm_row, &comm_size_row);
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
+  if (comm_size_row == my_cores_per_node_row * num_sockets_per_node && (num_sockets_per_node == 1 || collective_type == 0)) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
-- 
2.43.0


From 219ec97572bc329d30f6451aa41470c60efd005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:58 +0000
Subject: [PATCH 23/24] fix: let the table of requests grow, a lookup in a full
 table did not end

---
 src/mpi/hash_table.c | 48 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..b53e8d3 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -5,7 +5,7 @@
 #include "constants.h"
 #include "hash_table.h"
 
-#define SIZE 256
+#define SIZE 256    /* initial size */
 
 struct DataItem {
    int data;   
@@ -14,6 +14,7 @@ struct DataItem {
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int hashSize = 0, hashUsed = 0;
 
 static int hashCode(MPI_Request *key) {
    unsigned char value = 0;
@@ -34,14 +35,46 @@ int ext_mpi_hash_search(MPI_Request *key) {
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
+/* a search ends at an unused entry, there have to be some */
+static void hashGrow() {
+   struct DataItem **old = hashArray;
+   int sizeOld = hashSize, i, hashIndex;
+   struct DataItem **hashNew = (struct DataItem**) malloc(2*sizeOld*sizeof(struct DataItem*));
+   if (hashNew == NULL) {
+      return;
+   }
+   hashSize = 2 * sizeOld;
+   hashUsed = 0;
+   for (i = 0; i < hashSize; i++) {
+      hashNew[i] = NULL;
+   }
+   for (i = 0; i < sizeOld; i++) {
+      if (old[i] != NULL && old[i] != dummyItem) {
+         hashIndex = hashCode(&old[i]->key);
+         while (hashNew[hashIndex] != NULL) {
+            ++hashIndex;
+            hashIndex %= hashSize;
+         }
+         hashNew[hashIndex] = old[i];
+         hashUsed++;
+      }
+   }
+   hashArray = hashNew;
+   free(old);
+}
+
 void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
+   if (2 * hashUsed >= hashSize) {
+      hashGrow();
+   }
+
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
    item->data = data;  
    item->key = *key;
@@ -51,9 +84,12 @@ void ext_mpi_hash_insert(MPI_Request *key, int data) {
    while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }
 	
+   if (hashArray[hashIndex] == NULL) {
+      hashUsed++;
+   }
    hashArray[hashIndex] = item;
 }
 
@@ -71,7 +107,7 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -83,6 +119,8 @@ int ext_mpi_hash_init(){
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
   }
+  hashSize = SIZE;
+  hashUsed = 0;
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
   if (dummyItem==NULL){
     return ERROR_MALLOC;
@@ -94,7 +132,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From 24dcb632239cf5bb55ae9bfc64c16e3de8720b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:54 +0000
Subject: [PATCH 24/24] fix: take the value given in EXT_MPI_DEBUG,
 EXT_MPI_NOT_RECURSIVE and EXT_MPI_VERBOSE, 0 included

---
 src/mpi/ext_mpi.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index d9bdf54..736ee2c 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -59,7 +59,10 @@ static int read_env() {
     var = ((c = getenv("EXT_MPI_NOT_RECURSIVE")) != NULL);
     if (var) {
       ext_mpi_not_recursive = 1;
-      printf("# EXT_MPI not recursive\n");
+      sscanf(c, "%d", &ext_mpi_not_recursive);
+      if (ext_mpi_not_recursive) {
+        printf("# EXT_MPI not recursive\n");
+      }
     }
   }
   MPI_Bcast(&ext_mpi_not_recursive, 1, MPI_INT, 0, MPI_COMM_WORLD);
@@ -67,14 +70,17 @@ static int read_env() {
     var = ((c = getenv("EXT_MPI_VERBOSE")) != NULL);
     if (var) {
       ext_mpi_verbose = 1;
-      printf("# EXT_MPI verbose\n");
+      sscanf(c, "%d", &ext_mpi_verbose);
+      if (ext_mpi_verbose) {
+        printf("# EXT_MPI verbose\n");
+      }
     }
   }
   MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
+      if (sscanf(c, "%d", &ext_mpi_debug) == 0){
         ext_mpi_debug = 0;
       }
       if (ext_mpi_verbose) {
-- 
2.43.0

