From b4dd383704d39ef1088cac60e133a11b867d4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 01/53] fix: allocation helpers reported a failed allocation as
 success

sph_helper_status_id_memory was zero, which is status_id_success.
---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From 207e796e47a2856f6190ffe6d208f9f45da4d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 02/53] fix: return the result of sph_helper_status_description
 and sph_helper_status_name

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From d97a2eeee4ee58a6b041ac1e1d610dca28644d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 03/53] fix: return the status of the fixed-size
 sp_path_samples and sp_path_times variants

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 source/sc/sph-sp/path.sc           | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 5c8d3fe..8388ae9 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -46,49 +46,49 @@
       (status-t type** sp-time-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y 0))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y 0)))
     (define ((pre-concat sp-path- type-name 3) out length x1 y1 y2 y3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3))
       (array-set* y y1 y2 y3)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y 0))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y 0)))
     (define ((pre-concat sp-path- type-name 4) out length x1 x2 y1 y2 y3 y4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
-      ((pre-concat sp-path- type-name) out length 4 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 4 x y 0)))
     (define ((pre-concat sp-path- type-name 5) out length x1 x2 x3 y1 y2 y3 y4 y5)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
-      ((pre-concat sp-path- type-name) out length 5 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 5 x y 0)))
     (define ((pre-concat sp-path- type-name _c 2) out length y1 y2 c1)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y &c1))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y &c1)))
     (define ((pre-concat sp-path- type-name _c 3) out length x1 y1 y2 y3 c1 c2)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3) c (array sp-sample-t 2))
       (array-set* y y1 y2 y3)
       (array-set* c c1 c2)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y c))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y c)))
     (define ((pre-concat sp-path- type-name _c 4) out length x1 x2 y1 y2 y3 y4 c1 c2 c3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4) c (array sp-sample-t 3))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
       (array-set* c c1 c2 c3)
-      ((pre-concat sp-path- type-name) out length 4 x y c))
+      (return ((pre-concat sp-path- type-name) out length 4 x y c)))
     (define ((pre-concat sp-path- type-name _c 5) out length x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5) c (array sp-sample-t 4))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
       (array-set* c c1 c2 c3 c4)
-      ((pre-concat sp-path- type-name) out length 5 x y c))))
+      (return ((pre-concat sp-path- type-name) out length 5 x y c)))))
 
 (sp-define-path-n samples sp-sample-t)
 (sp-define-path-n times sp-time-t)
-- 
2.43.0


From 77c367ac52be0ed1c1b7f5d45325a802237d9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 04/53] fix: free the temporary samples when sp_path_times
 fails

---
 source/c-precompiled/sph-sp/path.c | 5 ++++-
 source/sc/sph-sp/path.sc           | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..428cca7 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -35,7 +35,10 @@ status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t
   status_declare;
   sp_sample_t* temp;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
-  status_require((sp_samples_to_times_replace(temp, length, out)));
+  status = sp_samples_to_times_replace(temp, length, out);
+  if (status_is_failure) {
+    free(temp);
+  };
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 8388ae9..1a8eebd 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -37,7 +37,8 @@
   status-declare
   (declare temp sp-sample-t*)
   (status-require (sp-path-samples &temp length point-count x y c))
-  (status-require (sp-samples->times-replace temp length out))
+  (set status (sp-samples->times-replace temp length out))
+  (if status-is-failure (free temp))
   (label exit status-return))
 
 (pre-define (sp-define-path-n type-name type)
-- 
2.43.0


From e738275880801c441c53bd106d3eabefe6a89b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 05/53] fix: sp_envelope_zero and sp_envelope_scaled used
 uninitialised points and memory outside of x and y

---
 source/c-precompiled/sph-sp/path.c | 22 +++++++++++++---------
 source/sc/sph-sp/path.sc           | 30 ++++++++++++++++--------------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 428cca7..34dc9fe 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -136,15 +136,17 @@ sp_define_path_n(samples, sp_sample_t)
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t xn = 0;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    xn += (x[(i - 1)] * length);
+    path_x[(i - 1)] = xn;
+    path_y[i] = y[(i - 1)];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  return ((sp_path_samples(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
@@ -170,15 +172,17 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t xn = 0;
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    xn += (x[(i - 1)] * length);
+    path_x[(i - 1)] = xn;
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  return ((sp_path_times(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 1a8eebd..dc6c473 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -99,14 +99,15 @@
   "x, y and c length is point_count minus two.
    x values will be multiplied by length.
    x values will be cumulative (0.1, 0.2) -> 0.3"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define xn sp-sample-t 0)
   (set (array-get path-y 0) 0 (array-get path-y (- point-count 1)) 0)
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (array-get y i)))
-  (return (sp-path-samples out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ xn (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) xn (array-get path-y i) (array-get y (- i 1))))
+  (return (sp-path-samples out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-zero-n prefix type-name type)
   (begin
@@ -145,16 +146,17 @@
    x length is point_count minus two.
    x values will be cumulative (0.1, 0.2) -> 0.3.
    x values will be multiplied by length"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define xn sp-sample-t 0)
   (set
     (array-get path-y 0) (* y-scalar (array-get y 0))
     (array-get path-y (- point-count 1)) (* y-scalar (array-get y (- point-count 1))))
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (* y-scalar (array-get y i))))
-  (return (sp-path-times out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ xn (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) xn (array-get path-y i) (* y-scalar (array-get y i))))
+  (return (sp-path-times out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-scaled-n prefix type-name type)
   (begin
-- 
2.43.0


From 6b1c2fbbd298632c990a9c44bddbac662ff87cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 06/53] fix: finishing a thread pool leaked its finish tasks
 and failed without memory

Calling sph_thread_pool_finish again after a call with no_wait enqueued tasks nobody
would run or free, discarding the queue removed the finish tasks of an earlier call so that
threads were never ended, and a failing allocation ended some of the threads only.
Threads now end when the pool is marked as finishing and the queue is empty.
---
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 19 ++++++++-----------
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.h |  1 +
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..15434be 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -28,21 +28,14 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
   void* exit_value;
   sph_thread_pool_size_t i;
   sph_thread_pool_size_t size;
-  sph_thread_pool_task_t* task;
+  pthread_mutex_lock((&(a->queue_mutex)));
   if (discard_queue) {
-    pthread_mutex_lock((&(a->queue_mutex)));
     sph_queue_init((&(a->queue)));
-    pthread_mutex_unlock((&(a->queue_mutex)));
   };
+  a->finish = 1;
+  pthread_cond_broadcast((&(a->queue_not_empty)));
+  pthread_mutex_unlock((&(a->queue_mutex)));
   size = a->size;
-  for (i = 0; (i < size); i = (1 + i)) {
-    task = malloc((sizeof(sph_thread_pool_task_t)));
-    if (!task) {
-      return (1);
-    };
-    task->f = sph_thread_finish;
-    sph_thread_pool_enqueue(a, task);
-  };
   if (!no_wait) {
     for (i = 0; (i < size); i = (1 + i)) {
       if (0 == pthread_join(((a->threads)[i]), (&exit_value))) {
@@ -65,6 +58,9 @@ wait:
   /* considers so-called spurious wakeups */
   if (a->queue.size) {
     task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
+  } else if (a->finish) {
+    pthread_mutex_unlock((&(a->queue_mutex)));
+    return (0);
   } else {
     pthread_cond_wait((&(a->queue_not_empty)), (&(a->queue_mutex)));
     goto wait;
@@ -80,6 +76,7 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   pthread_attr_t attr;
   int error;
   error = 0;
+  a->finish = 0;
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
   pthread_cond_init((&(a->queue_not_empty)), 0);
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index f9a855a..3a96f93 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -18,6 +18,7 @@ typedef struct {
   sph_queue_t queue;
   pthread_mutex_t queue_mutex;
   pthread_cond_t queue_not_empty;
+  uint8_t finish;
   sph_thread_pool_size_t size;
   pthread_t threads[sph_thread_pool_thread_limit];
 } sph_thread_pool_t;
-- 
2.43.0


From 1ea57fd74c1ff0ef11e80b51694d25d5a331cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 07/53] fix: thread pool creation with too many threads or a
 failing pthread_create

Threads created before the failing one were left running with references to the pool,
and more threads than the pool has space for were written outside of it.
---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 15434be..d9b3c22 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 void sph_thread_pool_destroy(sph_thread_pool_t* a) {
   pthread_cond_destroy((&(a->queue_not_empty)));
   pthread_mutex_destroy((&(a->queue_mutex)));
@@ -76,6 +77,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   pthread_attr_t attr;
   int error;
   error = 0;
+  if (size > sph_thread_pool_thread_limit) {
+    return (EINVAL);
+  };
   a->finish = 0;
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
@@ -85,10 +89,12 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   for (i = 0; (i < size); i = (1 + i)) {
     error = pthread_create((i + a->threads), (&attr), ((void* (*)(void*))(sph_thread_pool_worker)), ((void*)(a)));
     if (error) {
+      a->size = i;
       if (0 < i) {
-        /* try to finish previously created threads */
-        a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+        /* finish previously created threads. also destroys the pool */
+        sph_thread_pool_finish(a, 0, 0);
+      } else {
+        sph_thread_pool_destroy(a);
       };
       goto exit;
     };
-- 
2.43.0


From 2aa6563555ad9331441927c903ce97988b55108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 08/53] fix: the future thread pool could not be initialised
 again after sph_future_deinit

The pool was still marked as initialised and was destroyed twice.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..da74ef1 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -45,7 +45,7 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
     sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    sph_futures_pool_is_initialized = 0;
   };
 }
 
-- 
2.43.0


From e8a397e6d5eadfbbd05dbc1703a1b0e3d40015b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 09/53] fix: sp_deinitialize freed the sine tables again when
 called after a failed sp_initialize

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 source/sc/sph-sp/main.sc           | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..45f1fe8 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -452,6 +452,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 946b16c..4d554a1 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -344,7 +344,8 @@
 (define (sp-deinitialize) void
   (if sp-cpu-count (sph-future-deinit))
   (free sp-sine-table)
-  (free sp-sine-table-lfo))
+  (free sp-sine-table-lfo)
+  (set sp-sine-table 0 sp-sine-table-lfo 0))
 
 (pre-include "sph-sp/path.c")
 (sc-comment "extra")
-- 
2.43.0


From b88c98ddd057d22c57e92487b27403a365b2d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 10/53] fix: data race between the thread that finishes a
 future and the one that waits for it

Without ordering the waiting thread could see finished but not the data the task had written.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index da74ef1..6dee001 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,7 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -52,7 +52,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From adcbc4f66d5d08fc7df157ba9a74e592f952d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 11/53] fix: waiting for futures inside of futures deadlocked
 when all pool threads were waiting

For example a parallel group in a parallel group with one thread.
---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 14 ++++++++++--
 source/c/foreign/sph-sc-lib/sph-sp/queue.h   | 23 ++++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 6dee001..551403c 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -49,11 +49,21 @@ void sph_future_deinit() {
   };
 }
 
-/** blocks until future is finished and returns its result */
+/** blocks until future is finished and returns its result.
+   a future that no thread has started yet is evaluated in the current thread. this way, threads that wait
+   for futures inside futures can not use up all threads of the pool and wait forever */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
+  uint8_t is_queued;
   while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
-    nanosleep((&poll_interval), 0);
+    pthread_mutex_lock((&(sph_futures_pool.queue_mutex)));
+    is_queued = sph_queue_remove((&(sph_futures_pool.queue)), (&(a->task.q)));
+    pthread_mutex_unlock((&(sph_futures_pool.queue_mutex)));
+    if (is_queued) {
+      sph_future_eval((&(a->task)));
+    } else {
+      nanosleep((&poll_interval), 0);
+    };
   };
   return ((a->task.data));
 }
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/queue.h b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
index 9295ccb..0d152c3 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/queue.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
@@ -51,6 +51,29 @@ void sph_queue_enq(sph_queue_t* a, sph_queue_node_t* node) {
   a->size = (1 + a->size);
 }
 
+/** remove a node from anywhere in the queue. returns 1 if the node was in the queue, 0 otherwise */
+uint8_t sph_queue_remove(sph_queue_t* a, sph_queue_node_t* node) {
+  sph_queue_node_t* previous;
+  sph_queue_node_t* current;
+  previous = 0;
+  for (current = a->first; (current && !(current == node)); current = current->next) {
+    previous = current;
+  };
+  if (!current) {
+    return (0);
+  };
+  if (previous) {
+    previous->next = node->next;
+  } else {
+    a->first = node->next;
+  };
+  if (a->last == node) {
+    a->last = previous;
+  };
+  a->size = (a->size - 1);
+  return (1);
+}
+
 /** queue must not be empty. a.size can be checked to see if the queue is empty */
 sph_queue_node_t* sph_queue_deq(sph_queue_t* a) {
   sph_queue_node_t* n;
-- 
2.43.0


From d0bf5ae845a8abbcb6297a7f1eeb4f63afbb32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 12/53] fix: a failing update of a convolution filter left
 freed or leaked memory in its state

ir-f and the length of its arguments were also not updated when an existing state was changed,
so that every later call recalculated or compared with the wrong arguments.
---
 source/c-precompiled/sph-sp/filter.c | 60 ++++++++++------------------
 source/sc/sph-sp/filter.sc           | 59 +++++++++++----------------
 2 files changed, 45 insertions(+), 74 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..a3c9a31 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -16,12 +16,12 @@ void sp_convolution_filter_state_free(sp_convolution_filter_state_t* state) {
    ir-f-arguments can be stack allocated and will be copied to state on change */
 status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state) {
   status_declare;
-  sp_sample_t* carryover;
   sp_time_t carryover_alloc_len;
   sp_sample_t* ir;
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
+  state = 0;
+  ir = 0;
   /* create state if not exists. re-use if exists and return early if ir needs not be updated */
   if (*out_state) {
     /* existing */
@@ -29,60 +29,44 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     if ((state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
       /* unchanged */
       status_return;
-    } else {
-      /* changed */
-      if (ir_f_arguments_len > state->ir_f_arguments_len) {
-        status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-      };
-      if (state->ir) {
-        free((state->ir));
-      };
     };
   } else {
     /* new */
-    status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-    memreg_add(state);
-    memreg_add((state->ir_f_arguments));
-    state->carryover_alloc_len = 0;
-    state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
+    status_require((sph_helper_calloc((sizeof(sp_convolution_filter_state_t)), (&state))));
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
-  /* assumes that ir-len is always greater zero */
+  /* an existing state is only changed when nothing can fail anymore and stays usable otherwise.
+  assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   /* eventually extend carryover array. the array is never shrunk.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
   new and extended areas must be set to zero */
   carryover_alloc_len = (ir_len - 1);
-  if (state->carryover) {
-    carryover = state->carryover;
-    if (ir_len > state->ir_len) {
-      if (carryover_alloc_len > state->carryover_alloc_len) {
-        status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
-        state->carryover_alloc_len = carryover_alloc_len;
-      };
-      /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
-    };
-  } else {
-    if (carryover_alloc_len) {
-      status_require((sp_samples_new(carryover_alloc_len, (&carryover))));
-    } else {
-      carryover = 0;
-    };
+  if (carryover_alloc_len > state->carryover_alloc_len) {
+    status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&(state->carryover)))));
     state->carryover_alloc_len = carryover_alloc_len;
   };
-  state->carryover = carryover;
+  if (ir_f_arguments_len > state->ir_f_arguments_len) {
+    status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
+  };
+  /* in any case reset the extended area */
+  if (ir_len > (1 + state->carryover_len)) {
+    memset((state->carryover_len + state->carryover), 0, (((ir_len - 1) - state->carryover_len) * sizeof(sp_sample_t)));
+  };
+  free((state->ir));
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
   state->carryover_len = (ir_len - 1);
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
 exit:
   if (status_is_failure) {
-    memreg_free;
+    free(ir);
+    if (!*out_state) {
+      sp_convolution_filter_state_free(state);
+    };
   };
   status_return;
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 79521eb..60015c7 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -15,12 +15,11 @@
    ir-f-arguments can be stack allocated and will be copied to state on change"
   status-declare
   (declare
-    carryover sp-sample-t*
     carryover-alloc-len sp-time-t
     ir sp-sample-t*
     ir-len sp-time-t
     state sp-convolution-filter-state-t*)
-  (memreg-init 2)
+  (set state 0 ir 0)
   (sc-comment
     "create state if not exists. re-use if exists and return early if ir needs not be updated")
   (if *out-state
@@ -30,25 +29,13 @@
       (if
         (and (= state:ir-f ir-f) (= ir-f-arguments-len state:ir-f-arguments-len)
           (= 0 (memcmp state:ir-f-arguments ir-f-arguments ir-f-arguments-len)))
-        (begin (sc-comment "unchanged") status-return)
-        (begin
-          (sc-comment "changed")
-          (if (> ir-f-arguments-len state:ir-f-arguments-len)
-            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
-          (if state:ir (free state:ir)))))
+        (begin (sc-comment "unchanged") status-return)))
     (begin
       (sc-comment "new")
-      (status-require (sph-helper-malloc (sizeof sp-convolution-filter-state-t) &state))
-      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
-      (memreg-add state)
-      (memreg-add state:ir-f-arguments)
-      (set
-        state:carryover-alloc-len 0
-        state:carryover 0
-        state:ir-f ir-f
-        state:ir-f-arguments-len ir-f-arguments-len)))
-  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
-  (sc-comment "assumes that ir-len is always greater zero")
+      (status-require (sph-helper-calloc (sizeof sp-convolution-filter-state-t) &state))))
+  (sc-comment
+    "an existing state is only changed when nothing can fail anymore and stays usable otherwise."
+    "assumes that ir-len is always greater zero")
   (status-require (ir-f ir-f-arguments &ir &ir-len))
   (sc-comment
     "eventually extend carryover array. the array is never shrunk."
@@ -56,30 +43,30 @@
     "carryover-alloc-len is the length of the whole array."
     "new and extended areas must be set to zero")
   (set carryover-alloc-len (- ir-len 1))
-  (if state:carryover
-    (begin
-      (set carryover state:carryover)
-      (if (> ir-len state:ir-len)
-        (begin
-          (if (> carryover-alloc-len state:carryover-alloc-len)
-            (begin
-              (status-require
-                (sph-helper-realloc (* carryover-alloc-len (sizeof sp-sample-t)) &carryover))
-              (set state:carryover-alloc-len carryover-alloc-len)))
-          (sc-comment "in any case reset the extended area")
-          (memset (+ (- state:ir-len 1) carryover) 0
-            (* (- ir-len state:ir-len) (sizeof sp-sample-t))))))
+  (if (> carryover-alloc-len state:carryover-alloc-len)
     (begin
-      (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
-        (set carryover 0))
+      (status-require
+        (sph-helper-realloc (* carryover-alloc-len (sizeof sp-sample-t)) &state:carryover))
       (set state:carryover-alloc-len carryover-alloc-len)))
+  (if (> ir-f-arguments-len state:ir-f-arguments-len)
+    (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
+  (sc-comment "in any case reset the extended area")
+  (if (> ir-len (+ 1 state:carryover-len))
+    (memset (+ state:carryover-len state:carryover) 0
+      (* (- (- ir-len 1) state:carryover-len) (sizeof sp-sample-t))))
+  (free state:ir)
+  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
   (set
-    state:carryover carryover
+    state:ir-f ir-f
+    state:ir-f-arguments-len ir-f-arguments-len
     state:carryover-len (- ir-len 1)
     state:ir ir
     state:ir-len ir-len
     *out-state state)
-  (label exit (if status-is-failure memreg-free) status-return))
+  (label exit
+    (if status-is-failure
+      (begin (free ir) (if (not *out-state) (sp-convolution-filter-state-free state))))
+    status-return))
 
 (define
   (sp-convolution-filter in in-len ir-f ir-f-arguments ir-f-arguments-len out-state out-samples)
-- 
2.43.0


From 63de4da729a4f4ec8f44ad45bd39680e7dad90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 13/53] fix: sp_convolution_filter lost carryover when changing
 to a shorter impulse response

This happened with input segments shorter than the previous impulse response.
---
 source/c-precompiled/sph-sp/filter.c | 5 ++++-
 source/sc/sph-sp/filter.sc           | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index a3c9a31..9e1af39 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -57,7 +57,10 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   state->ir_f = ir_f;
   state->ir_f_arguments_len = ir_f_arguments_len;
-  state->carryover_len = (ir_len - 1);
+  /* what is left of earlier carryover might still be longer */
+  if (ir_len > (1 + state->carryover_len)) {
+    state->carryover_len = (ir_len - 1);
+  };
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 60015c7..df069f1 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -58,8 +58,10 @@
   (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
   (set
     state:ir-f ir-f
-    state:ir-f-arguments-len ir-f-arguments-len
-    state:carryover-len (- ir-len 1)
+    state:ir-f-arguments-len ir-f-arguments-len)
+  (sc-comment "what is left of earlier carryover might still be longer")
+  (if (> ir-len (+ 1 state:carryover-len)) (set state:carryover-len (- ir-len 1)))
+  (set
     state:ir ir
     state:ir-len ir-len
     *out-state state)
-- 
2.43.0


From e8b71bee8fc4801bb09ebe121e99c81754cdc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 14/53] fix: sp_windowed_sinc_bp_br_ir leaked the impulse
 responses it combines

---
 source/c-precompiled/sph-sp/filter.c | 6 ++++++
 source/sc/sph-sp/filter.sc           | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 9e1af39..b1ba765 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -161,6 +161,7 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  memreg_init(2);
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -174,7 +175,9 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
       };
     };
     status_require((sp_windowed_sinc_lp_hp_ir(cutoff_l, transition_l, 0, (&lp_ir), (&lp_len))));
+    memreg_add(lp_ir);
     status_require((sp_windowed_sinc_lp_hp_ir(cutoff_h, transition_h, 1, (&hp_ir), (&hp_len))));
+    memreg_index = 0;
     /* prepare to add the shorter ir to the longer one center-aligned */
     if (lp_len > hp_len) {
       start = (((lp_len - 1) / 2) - ((hp_len - 1) / 2));
@@ -209,13 +212,16 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
       };
     };
     status_require((sp_windowed_sinc_lp_hp_ir(cutoff_l, transition_l, 1, (&hp_ir), (&hp_len))));
+    memreg_add(hp_ir);
     status_require((sp_windowed_sinc_lp_hp_ir(cutoff_h, transition_h, 0, (&lp_ir), (&lp_len))));
+    memreg_add(lp_ir);
     /* convolve lp and hp ir samples */
     *out_len = ((lp_len + hp_len) - 1);
     status_require((sp_samples_new((*out_len), out_ir)));
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
   };
 exit:
+  memreg_free;
   status_return;
 }
 
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index df069f1..1862365 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -150,6 +150,7 @@
     end sp-time-t
     out sp-sample-t*
     over sp-sample-t*)
+  (memreg-init 2)
   (if is-reject
     (begin
       (if (>= 0.0 cutoff-l)
@@ -158,7 +159,9 @@
         (if (<= 0.5 cutoff-h)
           (return (sp-windowed-sinc-lp-hp-ir cutoff-l transition-l #f out-ir out-len))))
       (status-require (sp-windowed-sinc-lp-hp-ir cutoff-l transition-l #f &lp-ir &lp-len))
+      (memreg-add lp-ir)
       (status-require (sp-windowed-sinc-lp-hp-ir cutoff-h transition-h #t &hp-ir &hp-len))
+      (set memreg-index 0)
       (sc-comment "prepare to add the shorter ir to the longer one center-aligned")
       (if (> lp-len hp-len)
         (set
@@ -186,12 +189,14 @@
         (if (<= 0.5 cutoff-h)
           (return (sp-windowed-sinc-lp-hp-ir cutoff-l transition-l #t out-ir out-len))))
       (status-require (sp-windowed-sinc-lp-hp-ir cutoff-l transition-l #t &hp-ir &hp-len))
+      (memreg-add hp-ir)
       (status-require (sp-windowed-sinc-lp-hp-ir cutoff-h transition-h #f &lp-ir &lp-len))
+      (memreg-add lp-ir)
       (sc-comment "convolve lp and hp ir samples")
       (set *out-len (- (+ lp-len hp-len) 1))
       (status-require (sp-samples-new *out-len out-ir))
       (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)))
-  (label exit status-return))
+  (label exit memreg-free status-return))
 
 (define (sp-windowed-sinc-lp-hp-ir-f arguments out-ir out-len)
   (status-t void* sp-sample-t** sp-time-t*)
-- 
2.43.0


From 34da05cafcbc609630bcc0683d067ccbf0348c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 15/53] fix: errors when writing and closing files were not
 reported and failing renders closed files wrongly and leaked events

---
 source/c-precompiled/sph-sp/file.c | 34 ++++++++++++++++++++----------
 source/c-precompiled/sph-sp/main.c | 13 +++++++++---
 source/c-precompiled/sph-sp/main.h |  2 +-
 source/sc/sph-sp/file.sc           | 34 ++++++++++++++++++------------
 source/sc/sph-sp/main.h.sc         |  2 +-
 source/sc/sph-sp/main.sc           | 12 ++++++++---
 6 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..d891a8b 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -7,8 +7,9 @@
 #define wav_string_data htonl(0x64617461)
 status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t sample_rate, sp_file_t* file) {
   status_declare;
-  uint8_t header[40];
+  uint8_t header[44] = { 0 };
   *((uint32_t*)(header)) = wav_string_riff;
+  *((uint32_t*)((4 + header))) = 36;
   *((uint32_t*)((8 + header))) = wav_string_wav;
   *((uint32_t*)((12 + header))) = wav_string_fmt;
   *((uint32_t*)((16 + header))) = 16;
@@ -25,22 +26,30 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   if (!file->file) {
     status_set_goto(sp_s_group_libc, errno);
   };
-  if (!fwrite(header, 40, 1, (file->file))) {
+  if (!fwrite(header, 44, 1, (file->file))) {
     fclose((file->file));
+    file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
-  fseek((file->file), 4, SEEK_CUR);
 exit:
   status_return;
 }
-void sp_file_close_write(sp_file_t* file) {
+
+/** completes the header and closes the file. the file is closed even if an error is returned */
+status_t sp_file_close_write(sp_file_t* file) {
+  status_declare;
   uint32_t chunk_size;
+  uint32_t data_size;
   chunk_size = (36 + file->data_size);
-  fseek((file->file), 4, SEEK_SET);
-  fwrite((&chunk_size), 4, 1, (file->file));
-  fseek((file->file), 40, SEEK_SET);
-  fwrite((&(file->data_size)), 4, 1, (file->file));
-  fclose((file->file));
+  data_size = file->data_size;
+  if (fseek((file->file), 4, SEEK_SET) || !fwrite((&chunk_size), 4, 1, (file->file)) || fseek((file->file), 40, SEEK_SET) || !fwrite((&data_size), 4, 1, (file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  if (fclose((file->file))) {
+    sp_status_set(sp_s_id_file_write);
+  };
+  file->file = 0;
+  status_return;
 }
 status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_count) {
   status_declare;
@@ -49,11 +58,14 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
   sp_channel_count_t channel_count;
   file_data = 0;
   channel_count = file->channel_count;
-  interleaved_size = (channel_count * sample_count * 4);
+  interleaved_size = (4 * ((size_t)(channel_count)) * sample_count);
+  if (!interleaved_size) {
+    goto exit;
+  };
   srq((sph_helper_malloc(interleaved_size, (&file_data))));
   for (sp_time_t i = 0; (i < sample_count); i += 1) {
     for (sp_channel_count_t j = 0; (j < channel_count); j += 1) {
-      file_data[((i * channel_count) + j)] = (samples[j])[i];
+      file_data[((((size_t)(i)) * channel_count) + j)] = (samples[j])[i];
     };
   };
   if (!fwrite(file_data, interleaved_size, 1, (file->file))) {
diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 45f1fe8..d20c2f0 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -339,7 +339,11 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_file_t file;
   sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  file.file = 0;
+  if (sp_event_list_add((&events), event).id) {
+    sp_event_free(event);
+    sp_memory_error;
+  };
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
   remainder = ((end - start) % config.block_size);
@@ -356,10 +360,13 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     status_require((sp_seq(i, (i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
+  status_require((sp_file_close_write((&file))));
 exit:
+  if (file.file) {
+    sp_file_close_write((&file));
+  };
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
   status_return;
 }
 
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..69ac748 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -135,7 +135,7 @@ void sp_deinitialize();
 int sp_ffti(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 int sp_fft(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 void sp_file_close_read(sp_file_t file);
-void sp_file_close_write(sp_file_t* file);
+status_t sp_file_close_write(sp_file_t* file);
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file);
 status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t sample_rate, sp_file_t* file);
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples);
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 9c5c7c1..402b15e 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -9,9 +9,10 @@
 (define (sp-file-open-write path channel-count sample-rate file)
   (status-t uint8-t* sp-channel-count-t sp-time-t sp-file-t*)
   status-declare
-  (declare header (array uint8-t 40))
+  (declare header (array uint8-t 44 0))
   (set
     (pointer-get (convert-type header uint32-t*)) wav-string-riff
+    (pointer-get (convert-type (+ 4 header) uint32-t*)) 36
     (pointer-get (convert-type (+ 8 header) uint32-t*)) wav-string-wav
     (pointer-get (convert-type (+ 12 header) uint32-t*)) wav-string-fmt
     (pointer-get (convert-type (+ 16 header) uint32-t*)) 16
@@ -26,19 +27,22 @@
     file:channel-count channel-count
     file:file (fopen path "w"))
   (if (not file:file) (status-set-goto sp-s-group-libc errno))
-  (if (not (fwrite header 40 1 file:file))
-    (begin (fclose file:file) (sp-status-set-goto sp-s-id-file-write)))
-  (fseek file:file 4 SEEK_CUR)
+  (if (not (fwrite header 44 1 file:file))
+    (begin (fclose file:file) (set file:file 0) (sp-status-set-goto sp-s-id-file-write)))
   (label exit status-return))
 
-(define (sp-file-close-write file) (void sp-file-t*)
-  (declare chunk-size uint32-t)
-  (set chunk-size (+ 36 file:data-size))
-  (fseek file:file 4 SEEK_SET)
-  (fwrite &chunk-size 4 1 file:file)
-  (fseek file:file 40 SEEK_SET)
-  (fwrite &file:data-size 4 1 file:file)
-  (fclose file:file))
+(define (sp-file-close-write file) (status-t sp-file-t*)
+  "completes the header and closes the file. the file is closed even if an error is returned"
+  status-declare
+  (declare chunk-size uint32-t data-size uint32-t)
+  (set chunk-size (+ 36 file:data-size) data-size file:data-size)
+  (if
+    (or (fseek file:file 4 SEEK_SET) (not (fwrite &chunk-size 4 1 file:file))
+      (fseek file:file 40 SEEK_SET) (not (fwrite &data-size 4 1 file:file)))
+    (sp-status-set sp-s-id-file-write))
+  (if (fclose file:file) (sp-status-set sp-s-id-file-write))
+  (set file:file 0)
+  status-return)
 
 (define (sp-file-write file samples sample-count) (status-t sp-file-t* sp-sample-t** sp-time-t)
   status-declare
@@ -46,13 +50,15 @@
   (set
     file-data 0
     channel-count file:channel-count
-    interleaved-size (* channel-count sample-count 4))
+    interleaved-size (* 4 (convert-type channel-count size-t) sample-count))
+  (if (not interleaved-size) (goto exit))
   (srq (sph-helper-malloc interleaved-size &file-data))
   (for-each-index i sp-time-t
     sample-count
     (for-each-index j sp-channel-count-t
       channel-count
-      (set (array-get file-data (+ (* i channel-count) j)) (array-get (array-get samples j) i))))
+      (set (array-get file-data (+ (* (convert-type i size-t) channel-count) j))
+        (array-get (array-get samples j) i))))
   (if (not (fwrite file-data interleaved-size 1 file:file)) (sp-status-set-goto sp-s-id-file-write))
   (set+ file:data-size interleaved-size)
   (label exit (free file-data) status-return))
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 50929d9..7fdbba2 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -136,7 +136,7 @@
   (sp-ffti input-len input/output-real input/output-imag) (int sp-time-t double* double*)
   (sp-fft input-len input/output-real input/output-imag) (int sp-time-t double* double*)
   (sp-file-close-read file) (void sp-file-t)
-  (sp-file-close-write file) (void sp-file-t*)
+  (sp-file-close-write file) (status-t sp-file-t*)
   (sp-file-open-read path file) (status-t uint8-t* sp-file-t*)
   (sp-file-open-write path channel-count sample-rate file)
   (status-t uint8-t* sp-channel-count-t sp-time-t sp-file-t*)
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 4d554a1..786c1ad 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -251,7 +251,9 @@
   (declare block-end sp-time-t remainder sp-time-t i sp-time-t file sp-file-t)
   (sp-block-declare block)
   (sp-declare-event-list events)
-  (status-require (sp-event-list-add &events event))
+  (set file.file 0)
+  (if (struct-get (sp-event-list-add &events event) id)
+    (begin (sp-event-free event) sp-memory-error))
   (status-require (sp-block-new config.channel-count config.block-size &block))
   (status-require (sp-file-open-write path config.channel-count config.rate &file))
   (set
@@ -267,8 +269,12 @@
     (begin
       (status-require (sp-seq i (+ i remainder) block &events))
       (status-require (sp-file-write &file block.samples remainder))))
-  (sp-event-list-free &events)
-  (label exit (sp-block-free &block) (sp-file-close-write &file) status-return))
+  (status-require (sp-file-close-write &file))
+  (label exit
+    (if file.file (sp-file-close-write &file))
+    (sp-event-list-free &events)
+    (sp-block-free &block)
+    status-return))
 
 (define (sp-render-range-block event start end config out)
   (status-t sp-event-t sp-time-t sp-time-t sp-render-config-t sp-block-t*)
-- 
2.43.0


From 62a7f5a1101febb978390d3c811c88beaffa9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 16/53] fix: sp_render_range_file ignored the start of the
 range

---
 source/c-precompiled/sph-sp/main.c | 6 +++---
 source/sc/sph-sp/main.sc           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index d20c2f0..0c96074 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -347,10 +347,10 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
   remainder = ((end - start) % config.block_size);
-  block_end = (config.block_size * ((end - start) / config.block_size));
-  for (i = 0; (i < block_end); i += config.block_size) {
+  block_end = (start + (config.block_size * ((end - start) / config.block_size)));
+  for (i = start; (i < block_end); i += config.block_size) {
     if (config.display_progress) {
-      printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
+      printf(("%.1f%%\n"), (100 * ((i - start) / ((sp_sample_t)((block_end - start))))));
     };
     status_require((sp_seq(i, (i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 786c1ad..ad81a3e 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -258,10 +258,10 @@
   (status-require (sp-file-open-write path config.channel-count config.rate &file))
   (set
     remainder (modulo (- end start) config.block-size)
-    block-end (* config.block-size (/ (- end start) config.block-size)))
-  (for ((set i 0) (< i block-end) (set+ i config.block-size))
+    block-end (+ start (* config.block-size (/ (- end start) config.block-size))))
+  (for ((set i start) (< i block-end) (set+ i config.block-size))
     (if config.display-progress
-      (printf "%.1f%\n" (* 100 (/ i (convert-type block-end sp-sample-t)))))
+      (printf "%.1f%%\n" (* 100 (/ (- i start) (convert-type (- block-end start) sp-sample-t)))))
     (status-require (sp-seq i (+ i config.block-size) block &events))
     (status-require (sp-file-write &file block.samples config.block-size))
     (sp-block-zero block))
-- 
2.43.0


From 63d3d5b8f407d78b18c26784f66b9dd75ce7db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 17/53] fix: sp_render_range_block, sp_render_file and
 sp_render_plot leaked events and blocks

---
 source/c-precompiled/sph-sp/main.c | 39 +++++++++++++++++++++---------
 source/sc/sph-sp/main.sc           | 34 +++++++++++++++++---------
 2 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 0c96074..04c13f2 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -375,14 +375,20 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  if (sp_event_list_add((&events), event).id) {
+    sp_event_free(event);
+    sp_memory_error;
+  };
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
@@ -390,10 +396,15 @@ exit:
    uses channel count from global variable sp_channel_count and block size sp_rate */
 status_t sp_render_file(sp_event_t event, uint8_t* path) {
   status_declare;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    event.prepare = 0;
+    if (status_is_failure) {
+      sp_event_free(event);
+      goto exit;
+    };
   };
-  printf("rendering %lu seconds to file %s\n", (event.end / sp_rate), path);
+  printf("rendering %lu seconds to file %s\n", ((unsigned long)((event.end / sp_rate))), path);
   status_require((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
 exit:
   status_return;
@@ -403,18 +414,24 @@ exit:
    uses channel count from global variable sp_channel_count and block size sp_rate */
 status_t sp_render_plot(sp_event_t event) {
   status_declare;
-  sp_block_t block;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  sp_block_declare(block);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    event.prepare = 0;
+    if (status_is_failure) {
+      sp_event_free(event);
+      goto exit;
+    };
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", ((unsigned long)(((1000 * ((uint64_t)(event.end))) / sp_rate))));
   } else {
-    printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
+    printf("rendering %lu seconds to plot\n", ((unsigned long)((event.end / sp_rate))));
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
 exit:
+  sp_block_free((&block));
   status_return;
 }
 sp_random_state_t sp_random_state_new(sp_time_t seed) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index ad81a3e..1ff2494 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -282,21 +282,28 @@
    events should have been prepared with sp-seq-events-prepare.
    block will be allocated"
   status-declare
-  (declare block sp-block-t)
+  (sp-block-declare block)
   (sp-declare-event-list events)
-  (status-require (sp-event-list-add &events event))
+  (if (struct-get (sp-event-list-add &events event) id)
+    (begin (sp-event-free event) sp-memory-error))
   (status-require (sp-block-new config.channel-count (- end start) &block))
   (status-require (sp-seq start end block &events))
-  (sp-event-list-free &events)
   (set *out block)
-  (label exit status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (if status-is-failure (sp-block-free &block))
+    status-return))
 
 (define (sp-render-file event path) (status-t sp-event-t uint8-t*)
   "render the full duration of event to file at path and write information to standard output.
    uses channel count from global variable sp_channel_count and block size sp_rate"
   status-declare
-  (if (not event.end) (sp-event-prepare-optional-srq event))
-  (printf "rendering %lu seconds to file %s\n" (/ event.end sp-rate) path)
+  (if (and (not event.end) event.prepare)
+    (begin
+      (set status (event.prepare &event) event.prepare 0)
+      (if status-is-failure (begin (sp-event-free event) (goto exit)))))
+  (printf "rendering %lu seconds to file %s\n"
+    (convert-type (/ event.end sp-rate) (unsigned long)) path)
   (status-require
     (sp-render-range-file event 0
       event.end (sp-render-config sp-channel-count sp-rate (* sp-render-block-seconds sp-rate) #t)
@@ -307,17 +314,22 @@
   "render the full duration of event to file at path and write information to standard output.
    uses channel count from global variable sp_channel_count and block size sp_rate"
   status-declare
-  (declare block sp-block-t)
-  (if (not event.end) (sp-event-prepare-optional-srq event))
+  (sp-block-declare block)
+  (if (and (not event.end) event.prepare)
+    (begin
+      (set status (event.prepare &event) event.prepare 0)
+      (if status-is-failure (begin (sp-event-free event) (goto exit)))))
   (if (and event.end (< event.end sp-rate))
-    (printf "rendering %lu milliseconds to plot\n" (/ event.end sp-rate 1000))
-    (printf "rendering %lu seconds to plot\n" (/ event.end sp-rate)))
+    (printf "rendering %lu milliseconds to plot\n"
+      (convert-type (/ (* 1000 (convert-type event.end uint64-t)) sp-rate) (unsigned long)))
+    (printf "rendering %lu seconds to plot\n"
+      (convert-type (/ event.end sp-rate) (unsigned long))))
   (status-require
     (sp-render-range-block event 0
       event.end (sp-render-config sp-channel-count sp-rate (* sp-render-block-seconds sp-rate) #t)
       &block))
   (sp-plot-samples (array-get block.samples 0) event.end)
-  (label exit status-return))
+  (label exit (sp-block-free &block) status-return))
 
 (define (sp-random-state-new seed) (sp-random-state-t sp-time-t)
   (define result sp-random-state-t (sph-random-state-new seed))
-- 
2.43.0


From 77f23d6d93f8ba383547942e30f40a5a1d1b2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 18/53] fix: blocks of size zero leaked memory

---
 source/c-precompiled/sph-sp/main.c | 7 +++++--
 source/sc/sph-sp/main.sc           | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 04c13f2..2ce17dc 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -132,8 +132,11 @@ status_t sp_block_new(sp_channel_count_t channel_count, sp_time_t size, sp_block
   memreg_init(channel_count);
   sp_sample_t* channel;
   for (sp_size_t i = 0; (i < channel_count); i += 1) {
-    status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
-    memreg_add(channel);
+    channel = 0;
+    if (size) {
+      status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
+      memreg_add(channel);
+    };
     (out->samples)[i] = channel;
   };
   out->size = size;
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 1ff2494..e3b600c 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -86,8 +86,11 @@
   (memreg-init channel-count)
   (declare channel sp-sample-t*)
   (sp-for-each-index i channel-count
-    (status-require (sph-helper-calloc (* size (sizeof sp-sample-t)) &channel))
-    (memreg-add channel)
+    (set channel 0)
+    (if size
+      (begin
+        (status-require (sph-helper-calloc (* size (sizeof sp-sample-t)) &channel))
+        (memreg-add channel)))
     (set (array-get out:samples i) channel))
   (set out:size size out:channel-count channel-count)
   (label exit (if status-is-failure memreg-free) status-return))
-- 
2.43.0


From c9566aebb39692670fadd5165525e018ea44ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 19/53] fix: sp_file_open_read and sp_file_read used missing
 files, leaked files, ignored the channel count of the file and returned no
 status

---
 source/c-precompiled/sph-sp/file.c | 57 +++++++++++++++++++++++-------
 source/c-precompiled/sph-sp/main.h |  1 +
 source/sc/sph-sp/file.sc           | 55 ++++++++++++++++++++--------
 source/sc/sph-sp/main.h.sc         |  2 +-
 4 files changed, 88 insertions(+), 27 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index d891a8b..5cc9fc8 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -78,37 +78,69 @@ exit:
 }
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   status_declare;
-  uint8_t header[44];
+  uint8_t header[36];
   uint32_t subchunk_id;
   uint32_t subchunk_size;
+  sp_time_t channel_count;
+  file->data_size = 0;
+  file->data_start = 0;
   file->file = fopen(path, "r");
-  if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
+  if (!(fread(header, 36, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
-  if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
+  subchunk_size = *((uint32_t*)((16 + header)));
+  channel_count = *((uint16_t*)((22 + header)));
+  if (!((16 <= subchunk_size) && (3 == *((uint16_t*)((20 + header)))) && channel_count && (channel_count <= 255) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
-  subchunk_id = *((uint32_t*)((36 + header)));
-  subchunk_size = *((uint32_t*)((40 + header)));
-  while (!(wav_string_data == subchunk_id)) {
-    fseek((file->file), subchunk_size, SEEK_CUR);
+  file->channel_count = channel_count;
+  /* skip the rest of the format and other chunks. chunks are padded to an even size */
+  subchunk_size = (subchunk_size - 16);
+  do {
+    if (fseek((file->file), (((long)(subchunk_size)) + (1 & subchunk_size)), SEEK_CUR)) {
+      sp_status_set_goto(sp_s_id_file_read);
+    };
     if (!fread((&subchunk_id), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
     if (!fread((&subchunk_size), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
-  };
+  } while (!(wav_string_data == subchunk_id));
+  file->data_size = subchunk_size;
+  file->data_start = ftell((file->file));
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
   status_declare;
-  sp_time_t interleaved_count;
+  size_t interleaved_count;
+  size_t left;
   float* file_data;
-  sp_time_t read;
+  size_t read;
+  long position;
   file_data = 0;
-  interleaved_count = (file.channel_count * sample_count);
+  interleaved_count = (((size_t)(file.channel_count)) * sample_count);
+  if (!interleaved_count) {
+    goto exit;
+  };
+  /* exclude chunks that follow the data chunk. the size is zero if the file was not completely written */
+  position = ftell((file.file));
+  if (file.data_size && (position >= file.data_start)) {
+    left = (position - file.data_start);
+    left = ((left < file.data_size) ? ((file.data_size - left) / 4) : 0);
+    interleaved_count = ((left < interleaved_count) ? left : interleaved_count);
+  };
+  if (!interleaved_count) {
+    sp_status_set_goto(sp_s_id_file_eof);
+  };
   srq((sph_helper_malloc((4 * interleaved_count), (&file_data))));
   read = fread(file_data, 4, interleaved_count, (file.file));
   if (!(interleaved_count == read)) {
@@ -122,10 +154,11 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
   for (sp_time_t i = 0; (i < (read / file.channel_count)); i += 1) {
     for (sp_channel_count_t j = 0; (j < file.channel_count); j += 1) {
-      (samples[j])[i] = file_data[((i * file.channel_count) + j)];
+      (samples[j])[i] = file_data[((((size_t)(i)) * file.channel_count) + j)];
     };
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 69ac748..8f5cf2b 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -117,6 +117,7 @@ typedef struct {
   FILE* file;
   sp_size_t data_size;
   sp_channel_count_t channel_count;
+  long data_start;
 } sp_file_t;
 sp_random_state_t sp_random_state;
 sp_time_t sp_rate;
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 402b15e..46a0eb0 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -65,33 +65,59 @@
 
 (define (sp-file-open-read path file) (status-t uint8-t* sp-file-t*)
   status-declare
-  (declare header (array uint8-t 44) subchunk-id uint32-t subchunk-size uint32-t)
-  (set file:file (fopen path "r"))
+  (declare
+    header (array uint8-t 36)
+    subchunk-id uint32-t
+    subchunk-size uint32-t
+    channel-count sp-time-t)
+  (set file:data-size 0 file:data-start 0 file:file (fopen path "r"))
+  (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if
     (not
-      (and (fread header 44 1 file:file)
+      (and (fread header 36 1 file:file)
         (= (pointer-get (convert-type header uint32-t*)) wav-string-riff)
         (= (pointer-get (convert-type (+ 8 header) uint32-t*)) wav-string-wav)
         (= (pointer-get (convert-type (+ 12 header) uint32-t*)) wav-string-fmt)))
     (sp-status-set-goto sp-s-id-file-read))
+  (set
+    subchunk-size (pointer-get (convert-type (+ 16 header) uint32-t*))
+    channel-count (pointer-get (convert-type (+ 22 header) uint16-t*)))
   (if
     (not
-      (and (= 3 (pointer-get (convert-type (+ 20 header) uint16-t*)))
+      (and (<= 16 subchunk-size) (= 3 (pointer-get (convert-type (+ 20 header) uint16-t*)))
+        channel-count (<= channel-count 255)
         (= 32 (pointer-get (convert-type (+ 34 header) uint16-t*)))))
     (sp-status-set-goto sp-s-id-file-not-implemented))
-  (set
-    subchunk-id (pointer-get (convert-type (+ 36 header) uint32-t*))
-    subchunk-size (pointer-get (convert-type (+ 40 header) uint32-t*)))
-  (while (not (= wav-string-data subchunk-id))
-    (fseek file:file subchunk-size SEEK_CUR)
+  (set file:channel-count channel-count)
+  (sc-comment "skip the rest of the format and other chunks. chunks are padded to an even size")
+  (set subchunk-size (- subchunk-size 16))
+  (do-while (not (= wav-string-data subchunk-id))
+    (if
+      (fseek file:file (+ (convert-type subchunk-size long) (bit-and 1 subchunk-size)) SEEK_CUR)
+      (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
-  (label exit status-return))
+  (set file:data-size subchunk-size file:data-start (ftell file:file))
+  (label exit
+    (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
+    status-return))
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-  (declare interleaved-count sp-time-t file-data float* read sp-time-t)
-  (set file-data 0 interleaved-count (* file.channel-count sample-count))
+  (declare interleaved-count size-t left size-t file-data float* read size-t position long)
+  (set
+    file-data 0
+    interleaved-count (* (convert-type file.channel-count size-t) sample-count))
+  (if (not interleaved-count) (goto exit))
+  (sc-comment
+    "exclude chunks that follow the data chunk. the size is zero if the file was not completely written")
+  (set position (ftell file.file))
+  (if (and file.data-size (>= position file.data-start))
+    (set
+      left (- position file.data-start)
+      left (if* (< left file.data-size) (/ (- file.data-size left) 4) 0)
+      interleaved-count (if* (< left interleaved-count) left interleaved-count)))
+  (if (not interleaved-count) (sp-status-set-goto sp-s-id-file-eof))
   (srq (sph-helper-malloc (* 4 interleaved-count) &file-data))
   (set read (fread file-data 4 interleaved-count file.file))
   (if (not (= interleaved-count read))
@@ -101,7 +127,8 @@
     (/ read file.channel-count)
     (for-each-index j sp-channel-count-t
       file.channel-count
-      (set (array-get (array-get samples j) i) (array-get file-data (+ (* i file.channel-count) j)))))
-  (label exit (free file-data)))
+      (set (array-get (array-get samples j) i)
+        (array-get file-data (+ (* (convert-type i size-t) file.channel-count) j)))))
+  (label exit (free file-data) status-return))
 
 (define (sp-file-close-read file) (void sp-file-t) (fclose file.file))
\ No newline at end of file
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 7fdbba2..9c84e7c 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -115,7 +115,7 @@
       (samples (array sp-sample-t* sp-channel-count-limit))))
   sp-channel-count sp-channel-count-t
   sp-cpu-count uint32-t
-  sp-file-t (type (struct (file FILE*) (data-size sp-size-t) (channel-count sp-channel-count-t)))
+  sp-file-t (type (struct (file FILE*) (data-size sp-size-t) (channel-count sp-channel-count-t) (data-start long)))
   sp-random-state sp-random-state-t
   sp-rate sp-time-t
   sp-sine-lfo-factor sp-time-t
-- 
2.43.0


From 6cd8bd40b8627f29744161b318509d10bdb4421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 20/53] fix: sp_file_close_read crashed after a failed
 sp_file_open_read

---
 source/c-precompiled/sph-sp/file.c | 6 +++++-
 source/sc/sph-sp/file.sc           | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 5cc9fc8..37e9a45 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -161,4 +161,8 @@ exit:
   free(file_data);
   status_return;
 }
-void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
+void sp_file_close_read(sp_file_t file) {
+  if (file.file) {
+    fclose((file.file));
+  };
+}
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 46a0eb0..cebd305 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -131,4 +131,4 @@
         (array-get file-data (+ (* (convert-type i size-t) file.channel-count) j)))))
   (label exit (free file-data) status-return))
 
-(define (sp-file-close-read file) (void sp-file-t) (fclose file.file))
\ No newline at end of file
+(define (sp-file-close-read file) (void sp-file-t) (if file.file (fclose file.file)))
\ No newline at end of file
-- 
2.43.0


From ef7526add3352a22cb7ee39c238aa09543b7d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 21/53] fix: sp_event_list_reverse returned an uninitialised
 pointer for empty lists

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..2b999f6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 2c32114..8a69105 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -13,7 +13,7 @@
 
 (define (sp-event-list-reverse a) (void sp-event-list-t**)
   (declare current sp-event-list-t* next sp-event-list-t*)
-  (set next *a)
+  (set current 0 next *a)
   (while next (set current next next next:next current:next current:previous current:previous next))
   (set *a current))
 
-- 
2.43.0


From cb4d9e54dcf6c22d3fd25192176c3c5411ef0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 22/53] fix: sp_seq lost what a failing event prepare had
 allocated

---
 source/c-precompiled/sph-sp/sequencer.c | 5 ++---
 source/sc/sph-sp/sequencer.sc           | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 2b999f6..5a4eb73 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -263,9 +263,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
-      status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
+      sp_event_prepare_optional_srq((*ep));
+      status_require(((ep->generate)(((start > ep->start) ? (start - ep->start) : 0), (sp_inline_min(end, (ep->end)) - ep->start), ((ep->start > start) ? sp_block_with_offset(out, (ep->start - start)) : out), ep)));
     };
     current = current->next;
   };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 8a69105..b821cc7 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -169,11 +169,11 @@
       ( (<= e.end start) (set next current:next) (sp-event-list-remove events current)
         (set current next) continue)
       ((<= end e.start) break)
-      ( (> e.end start) (sp-event-prepare-optional-srq e) (set *ep e)
+      ( (> e.end start) (sp-event-prepare-optional-srq *ep)
         (status-require
-          (e.generate (if* (> start e.start) (- start e.start) 0)
-            (- (sp-inline-min end e.end) e.start)
-            (if* (> e.start start) (sp-block-with-offset out (- e.start start)) out) ep))))
+          (ep:generate (if* (> start ep:start) (- start ep:start) 0)
+            (- (sp-inline-min end ep:end) ep:start)
+            (if* (> ep:start start) (sp-block-with-offset out (- ep:start start)) out) ep))))
     (set current current:next))
   (label exit (if status-is-failure (sp-event-list-free events)) status-return))
 
-- 
2.43.0


From 480b2a83f8fa0c3b52881b8dd319d4abc9b36042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 23/53] fix: a failing sp_seq_parallel freed events and blocks
 that other threads were still using

---
 source/c-precompiled/sph-sp/sequencer.c | 2 ++
 source/sc/sph-sp/sequencer.sc           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 5a4eb73..b553c66 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -365,6 +365,8 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      /* after a failure, other futures might still be using their block and event */
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index b821cc7..d07cd01 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -252,6 +252,8 @@
     (if sf-array
       (begin
         (sp-for-each-index i allocated
+          (sc-comment "after a failure, other futures might still be using their block and event")
+          (sph-future-touch (address-of (struct-get (array-get sf-array i) future)))
           (sp-block-free (address-of (struct-get (array-get sf-array i) out))))
         (free sf-array)))
     (if status-is-failure (sp-event-list-free events))
-- 
2.43.0


From 1bcbd15e11ea97957c33083c434afac18e705f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 24/53] fix: groups and map events that were never prepared
 leaked their events

---
 source/c-precompiled/sph-sp/sequencer.h | 9 ++++++---
 source/sc/sph-sp/sequencer.h.sc         | 8 +++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..1d07549 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -40,14 +40,17 @@
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate_parallel; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
@@ -225,19 +228,19 @@ status_t sp_group_append(sp_event_t* a, sp_event_t event);
 void sp_group_event_free(sp_event_t* a);
 void sp_group_event_f(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
 void sp_group_event_parallel_f(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
-void sp_group_free();
+void sp_group_free(sp_event_t* event);
 status_t sp_group_generate_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* a);
 status_t sp_group_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* a);
 status_t sp_group_prepare(sp_event_t* event);
 status_t sp_group_prepare_parallel(sp_event_t* a);
 status_t sp_map_event_config_new_n(sp_time_t count, sp_map_event_config_t** out);
-void sp_map_event_free();
+void sp_map_event_free(sp_event_t* event);
 status_t sp_map_event_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
 status_t sp_map_event_isolated_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
 status_t sp_map_event_prepare(sp_event_t* event);
 sp_noise_event_config_t sp_noise_event_config_defaults();
 status_t sp_noise_event_config_new_n(sp_time_t count, sp_noise_event_config_t** out);
-void sp_noise_event_free();
+void sp_noise_event_free(sp_event_t* event);
 status_t sp_noise_event_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
 status_t sp_noise_event_prepare(sp_event_t* event);
 status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t** events);
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 7164d8a..6609e66 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -38,13 +38,19 @@
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
     generate (if* _config:isolate sp-map-event-isolated-generate sp-map-event-generate)
+    free sp-map-event-free
     config _config)
   (sp-group-event event-pointer)
-  (struct-pointer-set event-pointer prepare sp-group-prepare generate sp-group-generate config 0)
+  (struct-pointer-set event-pointer
+    prepare sp-group-prepare
+    generate sp-group-generate
+    free sp-group-free
+    config 0)
   (sp-group-parallel-event event-pointer)
   (struct-pointer-set event-pointer
     prepare sp-group-prepare
     generate sp-group-generate-parallel
+    free sp-group-free
     config 0)
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
-- 
2.43.0


From a29172a944e0a5fa46374ac29774a011572e702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 25/53] fix: event memory allocators lost the new memory when
 it could not be registered

---
 source/c-precompiled/sph-sp/sequencer.h | 90 ++++++++++++++++---------
 source/sc/sph-sp/sequencer.h.sc         | 90 ++++++++++++++++---------
 2 files changed, 120 insertions(+), 60 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 1d07549..b7629e2 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -53,95 +53,125 @@
   event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_fixed_add(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_fixed_add(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
+  status_require((sp_event_memory_ensure(event_pointer, 1))); \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_fixed_add(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 6609e66..4ff3aaf 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -54,124 +54,154 @@
     config 0)
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples-c3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples-c4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-samples-c5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-samples-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times-c3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times-c4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-path-times-c5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-path-times-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero-c3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero-c4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-zero-c5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-zero-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled-c3-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled-c4-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-envelope-scaled-c5-srq event-pointer out ...)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sp-envelope-scaled-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-fixed-add event-pointer *out))
   (sp-event-alloc-srq event-pointer allocator size pointer-address)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (allocator size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-fixed-add event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-srq event-pointer size pointer-address)
   (begin
+    (status-require (sp-event-memory-ensure event-pointer 1))
     (status-require (sph-helper-malloc size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-fixed-add event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-type-n-srq event-pointer count type pointer-address)
   (sp-event-malloc-srq event-pointer (* count (sizeof type)) pointer-address)
   (sp-event-malloc-type-srq event-pointer type pointer-address)
-- 
2.43.0


From 4a93ae0d45c846e3845e90bb22f26aa3ce7ccae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 26/53] fix: sp_event_memory_add after sp_event_memory_ensure
 for zero elements freed the register and failed

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index b553c66..b75e3b8 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -162,6 +162,9 @@ exit:
 /** ensures that event memory is initialized and can take $additional_size more elements */
 status_t sp_event_memory_ensure(sp_event_t* a, sp_time_t additional_size) {
   status_declare;
+  if (!additional_size) {
+    goto exit;
+  };
   if (a->memory.data) {
     if ((additional_size > array3_unused_size((a->memory))) && sp_memory_resize((&(a->memory)), (array3_max_size((a->memory)) + (additional_size - array3_unused_size((a->memory)))))) {
       sp_memory_error;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index d07cd01..5d44d48 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -97,6 +97,7 @@
 (define (sp-event-memory-ensure a additional-size) (status-t sp-event-t* sp-time-t)
   "ensures that event memory is initialized and can take $additional_size more elements"
   status-declare
+  (if (not additional-size) (goto exit))
   (if a:memory.data
     (if
       (and (> additional-size (array3-unused-size a:memory))
-- 
2.43.0


From 860fd7fa9f255a13a366cb4c3debf8d56602c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 27/53] fix: sp_event_block_generate divided by zero for empty
 ranges

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index b75e3b8..ff25799 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -214,6 +214,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    goto exit;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 5d44d48..02d5b56 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -135,6 +135,7 @@
     duration sp-time-t
     i sp-time-t)
   (set duration (- end start))
+  (if (not duration) (goto exit))
   (if (< duration resolution) (set resolution duration))
   (set
     block-count (sp-cheap-floor-positive (/ duration resolution))
-- 
2.43.0


From eb55d9e8fb872039663b5631076627e3b1cff2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 28/53] fix: blocks with offset kept their size, and isolated
 map events used more than the range of the event

---
 source/c-precompiled/sph-sp/main.c      | 1 +
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/main.sc                | 1 +
 source/sc/sph-sp/sequencer.sc           | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2ce17dc..f65c56f 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -160,6 +160,7 @@ sp_block_t sp_block_with_offset(sp_block_t a, sp_time_t offset) {
   for (sp_size_t i = 0; (i < a.channel_count); i += 1) {
     (a.samples)[i] += offset;
   };
+  a.size = sp_inline_no_underflow_subtract((a.size), offset);
   return (a);
 }
 void sp_block_zero(sp_block_t a) {
diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index ff25799..6dd6920 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -465,7 +465,7 @@ status_t sp_map_event_isolated_generate(sp_time_t start, sp_time_t end, sp_block
   sp_declare_block(temp_out);
   sp_map_event_config_t* c;
   c = event->config;
-  status_require((sp_block_new((out.channel_count), (out.size), (&temp_out))));
+  status_require((sp_block_new((out.channel_count), (end - start), (&temp_out))));
   status_require(((c->event.generate)(start, end, temp_out, (&(c->event)))));
   status_require(((c->map_generate)(start, end, temp_out, out, (c->config))));
 exit:
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index e3b600c..e1bb8d8 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -101,6 +101,7 @@
 (define (sp-block-with-offset a offset) (sp-block-t sp-block-t sp-time-t)
   "return a new block with offset added to all channel sample arrays"
   (sp-for-each-index i a.channel-count (set+ (array-get a.samples i) offset))
+  (set a.size (sp-inline-no-underflow-subtract a.size offset))
   (return a))
 
 (define (sp-block-zero a) (void sp-block-t)
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 02d5b56..46343dc 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -337,7 +337,7 @@
   (sp-declare-block temp-out)
   (declare c sp-map-event-config-t*)
   (set c event:config)
-  (status-require (sp-block-new out.channel-count out.size &temp-out))
+  (status-require (sp-block-new out.channel-count (- end start) &temp-out))
   (status-require (c:event.generate start end temp-out &c:event))
   (status-require (c:map-generate start end temp-out out c:config))
   (label exit (sp-block-free &temp-out) status-return))
-- 
2.43.0


From 43aba61d2005dcdf1651c5a31fd3950a2bc90ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 29/53] fix: a failing sp_group_append changed the group and
 failing sp_group_add and sp_group_append leaked prepared events

---
 source/c-precompiled/sph-sp/sequencer.c | 13 +++++++++++--
 source/sc/sph-sp/sequencer.sc           | 10 ++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 6dd6920..8478885 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -398,7 +398,8 @@ status_t sp_group_prepare(sp_event_t* group) {
   status_return;
 }
 
-/** events with end zero will be prepared immediately for cases when event.prepare sets end */
+/** events with end zero will be prepared immediately for cases when event.prepare sets end.
+   the event is freed if an error is returned */
 status_t sp_group_add(sp_event_t* group, sp_event_t event) {
   status_declare;
   if (!event.end) {
@@ -409,8 +410,13 @@ status_t sp_group_add(sp_event_t* group, sp_event_t event) {
     group->end = event.end;
   };
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
+
+/** the event is freed if an error is returned */
 status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   status_declare;
   if (!event.end) {
@@ -418,9 +424,12 @@ status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   };
   event.start += group->end;
   event.end += group->end;
-  group->end = event.end;
   status_require((sp_event_list_add(((sp_event_list_t**)(&(group->config))), event)));
+  group->end = event.end;
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
 status_t sp_map_event_config_new_n(sp_time_t count, sp_map_event_config_t** out) { return ((sp_calloc_type(count, sp_map_event_config_t, out))); }
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 46343dc..49d12cb 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -281,20 +281,22 @@
   status-return)
 
 (define (sp-group-add group event) (status-t sp-event-t* sp-event-t)
-  "events with end zero will be prepared immediately for cases when event.prepare sets end"
+  "events with end zero will be prepared immediately for cases when event.prepare sets end.
+   the event is freed if an error is returned"
   status-declare
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (status-require (sp-event-list-add (convert-type &group:config sp-event-list-t**) event))
   (if (< group:end event.end) (set group:end event.end))
-  (label exit status-return))
+  (label exit (if status-is-failure (sp-event-free event)) status-return))
 
 (define (sp-group-append group event) (status-t sp-event-t* sp-event-t)
+  "the event is freed if an error is returned"
   status-declare
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (set+ event.start group:end event.end group:end)
-  (set group:end event.end)
   (status-require (sp-event-list-add (convert-type &group:config sp-event-list-t**) event))
-  (label exit status-return))
+  (set group:end event.end)
+  (label exit (if status-is-failure (sp-event-free event)) status-return))
 
 (define (sp-map-event-config-new-n count out) (status-t sp-time-t sp-map-event-config-t**)
   (return (sp-calloc-type count sp-map-event-config-t out)))
-- 
2.43.0


From 867e91eb005738543a5630c2edf7352b265c3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 30/53] fix: data race on the global random state when noise
 events are prepared in parallel

---
 source/c-precompiled/sph-sp/sequencer.c | 12 +++++++++++-
 source/sc/sph-sp/sequencer.sc           | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 8478885..9a8a62e 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -601,6 +601,16 @@ status_t sp_noise_event_filter_state(sp_noise_event_config_t* c, sp_noise_event_
   frqn = sp_optional_array_get((cc->fmod), (cc->frq), 0);
   return ((sp_windowed_sinc_bp_br((*(c->temp)), ir_length, (sp_hz_to_factor(frqn)), (sp_hz_to_factor((frqn + sp_optional_array_get((cc->wmod), (cc->wdt), 0)))), (sp_hz_to_factor((cc->trnl))), (sp_hz_to_factor((cc->trnh))), (c->is_reject), (&(cc->filter_state)), ((c->temp)[1]))));
 }
+static pthread_mutex_t sp_noise_event_seed_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+/** get a seed from the global random state. events can be prepared by multiple threads at the same time */
+static sp_time_t sp_noise_event_seed() {
+  sp_time_t seed;
+  pthread_mutex_lock((&sp_noise_event_seed_mutex));
+  seed = sp_time_random_primitive((&sp_random_state));
+  pthread_mutex_unlock((&sp_noise_event_seed_mutex));
+  return (seed);
+}
 void sp_noise_event_free(sp_event_t* event) {
   sp_noise_event_config_t* c;
   sp_noise_event_channel_config_t* cc;
@@ -634,7 +644,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   sp_time_t temp_length;
   error_memory_init((3 + sp_channel_count_limit));
   c = event->config;
-  c->random_state = sp_random_state_new((sp_time_random_primitive((&sp_random_state))));
+  c->random_state = sp_random_state_new((sp_noise_event_seed()));
   cc = c->channel_config;
   duration = (event->end - event->start);
   filter_mod = (cc->fmod || cc->wmod);
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 49d12cb..55cda87 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -449,6 +449,16 @@
       (sp-hz->factor cc:trnl) (sp-hz->factor cc:trnh) c:is-reject
       &cc:filter-state (array-get c:temp 1))))
 
+(define sp-noise-event-seed-mutex (static pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER)
+
+(define (sp-noise-event-seed) ((static sp-time-t))
+  "get a seed from the global random state. events can be prepared by multiple threads at the same time"
+  (declare seed sp-time-t)
+  (pthread-mutex-lock &sp-noise-event-seed-mutex)
+  (set seed (sp-time-random-primitive &sp-random-state))
+  (pthread-mutex-unlock &sp-noise-event-seed-mutex)
+  (return seed))
+
 (define (sp-noise-event-free event) (void sp-event-t*)
   (declare c sp-noise-event-config-t* cc sp-noise-event-channel-config-t*)
   (set event:free 0 c event:config)
@@ -478,7 +488,7 @@
   (error-memory-init (+ 3 sp-channel-count-limit))
   (set
     c event:config
-    c:random-state (sp-random-state-new (sp-time-random-primitive &sp-random-state))
+    c:random-state (sp-random-state-new (sp-noise-event-seed))
     cc c:channel-config
     duration (- event:end event:start)
     filter-mod (or cc:fmod cc:wmod)
-- 
2.43.0


From c2d5ce6b59cf32ff658149d104f9c35a1fb155e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 31/53] fix: noise events never released their filters and
 buffers

---
 source/c-precompiled/sph-sp/sequencer.c | 15 ++++++++++++---
 source/sc/sph-sp/sequencer.sc           | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9a8a62e..a6f51e7 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -620,11 +620,13 @@ void sp_noise_event_free(sp_event_t* event) {
     cc = (c->channel_config + i);
     if (cc->filter_state) {
       sp_convolution_filter_state_free((cc->filter_state));
+      cc->filter_state = 0;
     };
   };
-  free(((c->temp)[0]));
-  free(((c->temp)[1]));
-  free(((c->temp)[2]));
+  for (sp_size_t i = 0; (i < 3); i += 1) {
+    free(((c->temp)[i]));
+    (c->temp)[i] = 0;
+  };
   sp_event_memory_free(event);
 }
 
@@ -721,9 +723,16 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
+    for (sp_size_t i = 0; (i < c->channel_count); i += 1) {
+      ((c->channel_config)[i]).filter_state = 0;
+    };
+    for (sp_size_t i = 0; (i < 3); i += 1) {
+      (c->temp)[i] = 0;
+    };
   };
   status_return;
 }
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 55cda87..1706580 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -464,10 +464,9 @@
   (set event:free 0 c event:config)
   (sp-for-each-index i c:channel-count
     (set cc (+ c:channel-config i))
-    (if cc:filter-state (sp-convolution-filter-state-free cc:filter-state)))
-  (free (array-get c:temp 0))
-  (free (array-get c:temp 1))
-  (free (array-get c:temp 2))
+    (if cc:filter-state
+      (begin (sp-convolution-filter-state-free cc:filter-state) (set cc:filter-state 0))))
+  (sp-for-each-index i 3 (free (array-get c:temp i)) (set (array-get c:temp i) 0))
   (sp-event-memory-free event))
 
 (define (sp-noise-event-prepare event) (status-t sp-event-t*)
@@ -544,7 +543,15 @@
           (begin
             (status-require (sp-noise-event-filter-state c cc (array-get ir-lengths cci)))
             (error-memory-add2 cc:filter-state sp-convolution-filter-state-free))))))
-  (label exit (if status-is-failure error-memory-free) status-return))
+  (set event:free sp-noise-event-free)
+  (label exit
+    (if status-is-failure
+      (begin
+        error-memory-free
+        (sp-for-each-index i c:channel-count
+          (set (struct-get (array-get c:channel-config i) filter-state) 0))
+        (sp-for-each-index i 3 (set (array-get c:temp i) 0))))
+    status-return))
 
 (define (sp-noise-event-generate-block duration block-i event-i out event)
   (status-t sp-time-t sp-time-t sp-time-t sp-block-t sp-event-t*)
-- 
2.43.0


From 4bd6954f74ec418ba4bd2bc2985208ea9c817260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 32/53] fix: noise events wrote outside of their buffers for
 large blocks and low frequency transitions

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 source/sc/sph-sp/sequencer.sc           | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index a6f51e7..155df18 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -699,9 +699,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   if (!filter_mod) {
     c->resolution = duration;
   };
-  /* this limits the largest block that can be safely requested */
+  /* this limits the size of temporary buffers. larger requests are divided into blocks of this size */
+  c->resolution = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
   temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 1706580..bda64d1 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -518,10 +518,11 @@
       (set ci cc:channel *cc *c:channel-config cc:channel ci)))
   (sc-comment "no updates necessary if parameters do not change")
   (if (not filter-mod) (set c:resolution duration))
-  (sc-comment "this limits the largest block that can be safely requested")
+  (sc-comment
+    "this limits the size of temporary buffers. larger requests are divided into blocks of this size")
   (set
-    temp-length (sp-inline-max temp-length c:resolution)
-    temp-length (sp-inline-min temp-length (* sp-render-block-seconds sp-rate)))
+    c:resolution (sp-inline-min c:resolution (* sp-render-block-seconds sp-rate))
+    temp-length (sp-inline-max temp-length c:resolution))
   (sc-comment
     "three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
      and one for other channel filter results")
-- 
2.43.0


From 3b0b9ca2905bff260a2228e066fd3eb037951dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 33/53] fix: spline_path_get skipped segments when a range
 overlaps a previously requested range

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..3a5a06f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,15 +21,20 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  /* current_segment_index is an index before which all segments end at or before previous_start */
+  if (start < path->previous_start) {
+    path->current_segment_index = 0;
+  };
+  path->previous_start = start;
+  for (spline_path_segment_count_t i = path->current_segment_index; (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-    path->previous_start = start;
-    if (s_start > end) {
+    if (s_start >= end) {
       break;
     };
-    if (s_end < start) {
+    if (s_end <= start) {
+      path->current_segment_index = i;
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From dfe7d20e69770109ba1d352823a699025d7f4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 34/53] fix: nested spline paths had no length and were never
 drawn

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 3a5a06f..24caf99 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -62,6 +62,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -258,7 +259,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From b5daa42702f7ee8400f0a11b66e9c714dc2b24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 35/53] fix: bezier segments wrote outside of the output when
 sampled in parts

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 42 ++++++-------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 24caf99..43f1114 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -170,51 +170,33 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   spline_path_point_t p_start;
   spline_path_value_t s_size;
   spline_path_value_t t;
-  size_t b_size;
   size_t x;
   size_t x_previous;
+  spline_path_value_t y;
   spline_path_value_t y_previous;
   size_t i;
   size_t j;
-  spline_path_value_t y;
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  /* always follows the curve from its beginning so that values do not depend on the requested range */
+  for (i = 0; (i <= s_size); i += 1) {
     t = (i / s_size);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
+    if ((start <= x) && (x < end)) {
       out[(x - start)] = y;
     };
-    if (2 > (x - x_previous)) {
-      continue;
-    };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
-      };
-    };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+    /* fill gaps */
+    for (j = ((x_previous < start) ? start : (1 + x_previous)); ((j < x) && (j < end)); j += 1) {
+      t = ((j - x_previous) / ((spline_path_value_t)((x - x_previous))));
+      out[(j - start)] = linearly_interpolate(y_previous, y, t);
     };
+    x_previous = x;
+    y_previous = y;
   };
 }
 spline_path_value_t spline_path_bezier1_interpolate_points(spline_path_value_t t, spline_path_value_t mt, spline_path_point_t* points, size_t field_offset) { return ((spline_path_bezier1_interpolate(t, mt, (spline_path_points_get_with_offset(points, 0, field_offset)), (spline_path_points_get_with_offset(points, 1, field_offset)), (spline_path_points_get_with_offset(points, 2, field_offset))))); }
-- 
2.43.0


From 6426dd4af373df6a7e03db46a67dc4c1216433cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 36/53] fix: spline_path_set_copy leaked the copy when
 preparing a segment failed

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 43f1114..0269b0b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -107,7 +107,11 @@ uint8_t spline_path_set_copy(spline_path_t* path, spline_path_segment_t* segment
     return (1);
   };
   memcpy(s, segments, (segments_count * sizeof(spline_path_segment_t)));
-  return ((spline_path_set(path, s, segments_count)));
+  if (spline_path_set(path, s, segments_count)) {
+    free(s);
+    return (1);
+  };
+  return (0);
 }
 
 /** create a sampled array directly from segments */
-- 
2.43.0


From 8c12bb03f3aba02ca58d98e498708e5a4413ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 37/53] fix: sp_times_permutations permuted zeros and overwrote
 its input, permutations and compositions freed uninitialised pointers without
 memory

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..91fa4cf 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -78,6 +78,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   s = 0;
   temp_out = 0;
   i = 0;
+  temp_out_used_size = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
   srq((sp_times_new(size, (&s))));
@@ -85,8 +86,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
@@ -154,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 43fb45c..7c2aafd 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -60,14 +60,14 @@
     temp-out sp-time-t**
     temp-out-used-size sp-time-t
     s sp-time-t*)
-  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-size (sp-time-factorial size))
+  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-used-size 0 temp-out-size (sp-time-factorial size))
   (srq (sp-times-new size &a))
   (srq (sp-times-new size &s))
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
   (srq (sp-times-new size &b))
   (set (array-get temp-out 0) b temp-out-used-size 1)
-  (sp-times-copy a size set)
-  (sp-times-copy b size a)
+  (sp-times-copy set size a)
+  (sp-times-copy a size b)
   (while (< i size)
     (if (< (array-get s i) i)
       (begin
@@ -113,7 +113,7 @@
     b-size sp-time-t
     x sp-time-t
     y sp-time-t)
-  (set sigma 1 o 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
+  (set sigma 1 o 0 o-sizes 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
   (status-require (sph-helper-calloc (* (+ 1 sum) (sizeof sp-time-t)) &a))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t*)) &o))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t)) &o-sizes))
-- 
2.43.0


From 9d7409bf9da93ea5dda823520687ceff54f29e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 38/53] fix: median leaked memory and used an element beside
 the middle, for a single value one outside of the array

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 source/sc/sph-sp/statistics.sc           | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..01ee09b 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + ((sp_sample_t)(temp[((size / 2) - 1)]))) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 5260cd7..528a3a3 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -46,8 +46,12 @@
     (memcpy temp a (* size (sizeof value-t)))
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
-      (if* (bit-and size 1) (array-get temp (- (/ size 2) 1))
-        (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+      (if* (bit-and size 1) (array-get temp (/ size 2))
+        (/
+          (+ (array-get temp (/ size 2))
+            (convert-type (array-get temp (- (/ size 2) 1)) sp-sample-t))
+          2.0)))
+    (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
   (define (name a size out) (uint8-t value-t* sp-time-t sp-sample-t*)
-- 
2.43.0


From 6e8eca29530e68ca6117f76e635e77b395f36766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 39/53] fix: plotting crashed when files could not be opened
 and leaked memory when the spectrum failed

---
 source/c-precompiled/sph-sp/plot.c | 25 ++++++++++++++++++-------
 source/sc/sph-sp/plot.sc           | 26 ++++++++++++++++----------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..052746a 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,8 +21,11 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
-    fprintf(file, "%lu\n", (a[i]));
+    fprintf(file, "%lu\n", ((unsigned long)(a[i])));
   };
   fclose(file);
 }
@@ -57,7 +63,7 @@ void sp_plot_samples(sp_sample_t* a, sp_time_t a_size) {
   if (!path) {
     return;
   };
-  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, sp_plot_temp_file_index);
+  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, ((unsigned long)(sp_plot_temp_file_index)));
   sp_plot_temp_file_index = (1 + sp_plot_temp_file_index);
   sp_plot_samples_to_file(a, a_size, path);
   sp_plot_samples_file(path, 0);
@@ -69,7 +75,7 @@ void sp_plot_times(sp_time_t* a, sp_time_t a_size) {
   if (!path) {
     return;
   };
-  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, sp_plot_temp_file_index);
+  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, ((unsigned long)(sp_plot_temp_file_index)));
   sp_plot_temp_file_index = (1 + sp_plot_temp_file_index);
   sp_plot_times_to_file(a, a_size, path);
   sp_plot_times_file(path, 1);
@@ -82,23 +88,28 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   sp_time_t i;
   double* imag;
   double* real;
+  real = 0;
   imag = calloc(a_size, (sizeof(sp_sample_t)));
   if (!imag) {
-    return;
+    goto exit;
   };
   real = malloc((sizeof(sp_sample_t) * a_size));
   if (!real) {
-    return;
+    goto exit;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
-    return;
+    goto exit;
   };
   file = fopen(path, "w");
+  if (!file) {
+    goto exit;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
   fclose(file);
+exit:
   free(imag);
   free(real);
 }
@@ -109,7 +120,7 @@ void sp_plot_spectrum(sp_sample_t* a, sp_time_t a_size) {
   if (!path) {
     return;
   };
-  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, sp_plot_temp_file_index);
+  snprintf(path, path_size, "%s-%lu", sp_plot_temp_path, ((unsigned long)(sp_plot_temp_file_index)));
   sp_plot_temp_file_index = (1 + sp_plot_temp_file_index);
   sp_plot_spectrum_to_file(a, a_size, path);
   sp_plot_spectrum_file(path);
diff --git a/source/sc/sph-sp/plot.sc b/source/sc/sph-sp/plot.sc
index 5520f30..47c3a98 100644
--- a/source/sc/sph-sp/plot.sc
+++ b/source/sc/sph-sp/plot.sc
@@ -15,13 +15,16 @@
 (define (sp-plot-samples->file a a-size path) (void sp-sample-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
+  (if (not file) return)
   (for ((set i 0) (< i a-size) (set i (+ 1 i))) (fprintf file "%.3f\n" (array-get a i)))
   (fclose file))
 
 (define (sp-plot-times->file a a-size path) (void sp-time-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
-  (for ((set i 0) (< i a-size) (set+ i 1)) (fprintf file "%lu\n" (array-get a i)))
+  (if (not file) return)
+  (for ((set i 0) (< i a-size) (set+ i 1))
+    (fprintf file "%lu\n" (convert-type (array-get a i) (unsigned long))))
   (fclose file))
 
 (define (sp-plot-samples-file path use-steps) (void uint8-t* uint8-t)
@@ -50,7 +53,8 @@
   (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
-  (snprintf path path-size "%s-%lu" sp-plot-temp-path sp-plot-temp-file-index)
+  (snprintf path path-size "%s-%lu" sp-plot-temp-path
+    (convert-type sp-plot-temp-file-index (unsigned long)))
   (set sp-plot-temp-file-index (+ 1 sp-plot-temp-file-index))
   (sp-plot-samples->file a a-size path)
   (sp-plot-samples-file path #f)
@@ -60,7 +64,8 @@
   (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
-  (snprintf path path-size "%s-%lu" sp-plot-temp-path sp-plot-temp-file-index)
+  (snprintf path path-size "%s-%lu" sp-plot-temp-path
+    (convert-type sp-plot-temp-file-index (unsigned long)))
   (set sp-plot-temp-file-index (+ 1 sp-plot-temp-file-index))
   (sp-plot-times->file a a-size path)
   (sp-plot-times-file path #t)
@@ -69,13 +74,14 @@
 (define (sp-plot-spectrum->file a a-size path) (void sp-sample-t* sp-time-t uint8-t*)
   "take the fft for given samples, convert complex values to magnitudes and write plot data to file"
   (declare file FILE* i sp-time-t imag double* real double*)
-  (set imag (calloc a-size (sizeof sp-sample-t)))
-  (if (not imag) return)
+  (set real 0 imag (calloc a-size (sizeof sp-sample-t)))
+  (if (not imag) (goto exit))
   (set real (malloc (* (sizeof sp-sample-t) a-size)))
-  (if (not real) return)
+  (if (not real) (goto exit))
   (memcpy real a (* (sizeof sp-sample-t) a-size))
-  (if (sp-fft a-size real imag) return)
+  (if (sp-fft a-size real imag) (goto exit))
   (set file (fopen path "w"))
+  (if (not file) (goto exit))
   (for ((set i 0) (< i a-size) (set i (+ 1 i)))
     (fprintf file "%.3f\n"
       (* 2
@@ -84,8 +90,7 @@
             (+ (* (array-get real i) (array-get real i)) (* (array-get imag i) (array-get imag i))))
           a-size))))
   (fclose file)
-  (free imag)
-  (free real))
+  (label exit (free imag) (free real)))
 
 (define (sp-plot-spectrum-file path) (void uint8-t*) (sp-plot-samples-file path #t))
 
@@ -93,7 +98,8 @@
   (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
-  (snprintf path path-size "%s-%lu" sp-plot-temp-path sp-plot-temp-file-index)
+  (snprintf path path-size "%s-%lu" sp-plot-temp-path
+    (convert-type sp-plot-temp-file-index (unsigned long)))
   (set sp-plot-temp-file-index (+ 1 sp-plot-temp-file-index))
   (sp-plot-spectrum->file a a-size path)
   (sp-plot-spectrum-file path)
-- 
2.43.0


From 299a21fd7e97b808c3bfcc438a71a0ec671d6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 40/53] fix: shuffling and swapping samples and units exchanged
 parts of wrong elements

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 source/sc/sph-sp/arrays-template.h.sc         | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..35aa155 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
diff --git a/source/sc/sph-sp/arrays-template.h.sc b/source/sc/sph-sp/arrays-template.h.sc
index 8b4088e..d7896f4 100644
--- a/source/sc/sph-sp/arrays-template.h.sc
+++ b/source/sc/sph-sp/arrays-template.h.sc
@@ -17,7 +17,7 @@
     ((pre-concat sp_ type-name _new) count out) (status-t sp-size-t value-t**)
     ((pre-concat sp_ type-name _copy) in count out) (void value-t* sp-size-t value-t*)
     ((pre-concat sp_ type-name _cusum) in count out) (void value-t* value-t value-t*)
-    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void sp-time-t* sp-ssize-t sp-ssize-t)
+    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void value-t* sp-ssize-t sp-ssize-t)
     ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
     ((pre-concat sp_ type-name _array-free) in count) (void value-t** sp-size-t)
     ((pre-concat sp_ type-name _additions) start summand count out)
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 7428536..dda982f 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -68,8 +68,8 @@
         (set+ sum (array-get in i))
         (set (array-get out i) sum)))
     (define ((pre-concat sp_ type-name _swap) in-out index-1 index-2)
-      (void sp-time-t* sp-ssize-t sp-ssize-t)
-      (define temp sp-time-t (array-get in-out index-1))
+      (void value-t* sp-ssize-t sp-ssize-t)
+      (define temp value-t (array-get in-out index-1))
       (set (array-get in-out index-1) (array-get in-out index-2) (array-get in-out index-2) temp))
     (define ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
       (sp-shuffle
-- 
2.43.0


From 5a22d882538732486fcd6a690315acd646c8b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 41/53] fix: sampling a path in parts gave other values if
 points are between samples

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 0269b0b..7eebd2b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -158,13 +158,14 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
   p_start = (s->points)[0];
   p_end = (s->points)[1];
   s_size = (p_end.x - p_start.x);
-  s_offset = (start - p_start.x);
+  /* ranges start at full samples even if points are in between */
+  s_offset = (start - ((size_t)(p_start.x)));
   for (size_t i = 0; (i < (end - start)); i += 1) {
     t = ((i + s_offset) / s_size);
     out[i] = linearly_interpolate((p_start.y), (p_end.y), t);
   };
 }
-void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - s->points->x), (end - s->points->x), out); }
+void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - ((size_t)(s->points->x))), (end - ((size_t)(s->points->x))), out); }
 
 /** quadratic bezier curve with one control point.
    bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps */
-- 
2.43.0


From 57a053df97126728fc2ac8b81cd7cdeb71a3ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 42/53] fix: moving average reflected values from the wrong end
 after the last value

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 source/sc/sph-sp/filter.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index b1ba765..1a1ff5d 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -332,7 +332,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((2 * (in_size - 1)) - i - radius)] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 1862365..506d167 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -312,6 +312,6 @@
       (-
         (+ sum
           (if* next (array-get next (- i (- in-size radius)))
-            (* (array-get in (- (+ i radius 1) in-size)) -1)))
+            (* (array-get in (- (* 2 (- in-size 1)) i radius)) -1)))
         (array-get in (- i radius 1)))
       (array-get out i) (/ sum width))))
\ No newline at end of file
-- 
2.43.0


From c75fc24f5e77f92b31bae95c177cbd14f06aef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 43/53] fix: reading a file ignored a failure to get the read
 position

---
 source/c-precompiled/sph-sp/file.c | 6 ++++++
 source/sc/sph-sp/file.sc           | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 37e9a45..c436086 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -112,6 +112,9 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   } while (!(wav_string_data == subchunk_id));
   file->data_size = subchunk_size;
   file->data_start = ftell((file->file));
+  if (file->data_start < 0) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
 exit:
   if (status_is_failure && file->file) {
     fclose((file->file));
@@ -133,6 +136,9 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
   /* exclude chunks that follow the data chunk. the size is zero if the file was not completely written */
   position = ftell((file.file));
+  if (position < 0) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
   if (file.data_size && (position >= file.data_start)) {
     left = (position - file.data_start);
     left = ((left < file.data_size) ? ((file.data_size - left) / 4) : 0);
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index cebd305..efa5d55 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -98,6 +98,7 @@
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
   (set file:data-size subchunk-size file:data-start (ftell file:file))
+  (if (< file:data-start 0) (sp-status-set-goto sp-s-id-file-read))
   (label exit
     (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
     status-return))
@@ -112,6 +113,7 @@
   (sc-comment
     "exclude chunks that follow the data chunk. the size is zero if the file was not completely written")
   (set position (ftell file.file))
+  (if (< position 0) (sp-status-set-goto sp-s-id-file-read))
   (if (and file.data-size (>= position file.data-start))
     (set
       left (- position file.data-start)
-- 
2.43.0


From 1b45230fe99c1284776384c2d500f9a44720eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 44/53] fix: reversing arrays wrote beyond the end

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 35aa155..72b7635 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - (1 + i))] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index dda982f..10fc281 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -35,7 +35,7 @@
         (if (> temp max) (set max temp)))
       (return max))
     (define ((pre-concat sp_ type-name _reverse) in count out) (void value-t* sp-size-t value-t*)
-      (sp-for-each-index i count (set (array-get out (- count i)) (array-get in i))))
+      (sp-for-each-index i count (set (array-get out (- count (+ 1 i))) (array-get in i))))
     (define ((pre-concat sp_ type-name _equal) in count value)
       (sp-bool-t value-t* sp-size-t value-t)
       (sp-for-each-index i count (if (not (= value (array-get in i))) (return 0)))
-- 
2.43.0


From 8911f5e294948da04d300349ba8b4eccee7c2ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 45/53] fix: sp_times_make_seamless_left read beyond the end
 and skipped values

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 91fa4cf..38241e0 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -406,9 +406,9 @@ void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
   count = sp_inline_min(b_count, (a_count / 2));
   start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((1 + i) / count));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 7c2aafd..db86a53 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -296,8 +296,8 @@
   (set count (sp-inline-min b-count (/ a-count 2)) start (- a-count count))
   (sp-for-each-index i count
     (set (array-get out i)
-      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count i)) (/ (+ 1 i) count))))
-  (for ((set i (- count 1)) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
+      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count (+ 1 i))) (/ (+ 1 i) count))))
+  (for ((set i count) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
 
 (define (sp-times-limit a count n out) (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "set all values greater than n in array to n"
-- 
2.43.0


From 8878965111c041374081487d712c4522343cfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 46/53] fix: sp_times_select_random used uninitialised values
 if memory ran out

---
 source/c-precompiled/sph-sp/arrays.c | 5 ++++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 38241e0..7da9b1d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -262,7 +262,10 @@ void sp_times_gt_indices(sp_time_t* a, sp_time_t size, sp_time_t n, sp_time_t* o
    out-size will be less or equal than size.
    memory is allocated and owned by caller */
 void sp_times_select_random(sp_time_t* a, sp_time_t size, sp_time_t* out, sp_time_t* out_size) {
-  sp_times_random_binary(size, out);
+  if (sp_times_random_binary(size, out).id) {
+    *out_size = 0;
+    return;
+  };
   sp_times_gt_indices(out, size, 0, out, out_size);
   sp_times_select(a, out, (*out_size), out);
 }
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index db86a53..0b96eb9 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -177,7 +177,7 @@
   "a/out can not be the same pointer.
    out-size will be less or equal than size.
    memory is allocated and owned by caller"
-  (sp-times-random-binary size out)
+  (if (struct-get (sp-times-random-binary size out) id) (begin (set *out-size 0) return))
   (sp-times-gt-indices out size 0 out out-size)
   (sp-times-select a out *out-size out))
 
-- 
2.43.0


From 1b337cd38940a804bdc796732d957f12e4b72bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 47/53] fix: sp_times_scale_sum used previous content of the
 output array

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 7da9b1d..e6f266d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -313,7 +313,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 0b96eb9..3e3c791 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -220,7 +220,7 @@
    a/out can be the same pointer"
   (define factor sp-sample-t (/ (convert-type sum sp-sample-t) (sp-times-sum in count)))
   (sp-for-each-index i count
-    (set (array-get out i) (sp-cheap-round-positive (* (array-get out i) factor)))))
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-multiplications start factor count out)
   (void sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From c50d6f667a1a22474d7471d85826ce0ecf313058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 48/53] fix: sp_times_random_discrete_unique used uninitialised
 values for larger sizes

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e6f266d..72a26c4 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -339,7 +339,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 3e3c791..53177a3 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -236,7 +236,7 @@
   (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "create size number of unique discrete random numbers with the distribution given by cudist"
   (declare a sp-time-t remaining sp-time-t)
-  (set remaining (sp-inline-min size cudist-size))
+  (set size (sp-inline-min size cudist-size) remaining size)
   (while remaining
     (set a (sp-time-random-discrete cudist cudist-size))
     (if (sp-times-contains out (- size remaining) a) continue)
-- 
2.43.0


From 7ba0849dde13fa0176b3eaae1dcdeef69e4e3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 49/53] fix: sorting read elements outside of the array

median calculation read before or after the array because quicksort
compared again after the two indices had already crossed
---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..d81c385 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while (l <= r) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From 90f7c84a43e331e9372f61d115824f229d038b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 50/53] fix: plot file names with the largest index were cut
 off

---
 source/c-precompiled/sph-sp/plot.c | 6 +++---
 source/sc/sph-sp/plot.sc           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index 052746a..93cecbd 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -58,7 +58,7 @@ void sp_plot_times_file(uint8_t* path, uint8_t use_steps) {
   free(command);
 }
 void sp_plot_samples(sp_sample_t* a, sp_time_t a_size) {
-  uint8_t path_size = (1 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
+  uint8_t path_size = (2 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
   uint8_t* path = calloc(path_size, 1);
   if (!path) {
     return;
@@ -70,7 +70,7 @@ void sp_plot_samples(sp_sample_t* a, sp_time_t a_size) {
   free(path);
 }
 void sp_plot_times(sp_time_t* a, sp_time_t a_size) {
-  uint8_t path_size = (1 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
+  uint8_t path_size = (2 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
   uint8_t* path = calloc(path_size, 1);
   if (!path) {
     return;
@@ -115,7 +115,7 @@ exit:
 }
 void sp_plot_spectrum_file(uint8_t* path) { sp_plot_samples_file(path, 1); }
 void sp_plot_spectrum(sp_sample_t* a, sp_time_t a_size) {
-  uint8_t path_size = (1 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
+  uint8_t path_size = (2 + sp_plot_temp_file_index_maxlength + strlen(sp_plot_temp_path));
   uint8_t* path = calloc(path_size, 1);
   if (!path) {
     return;
diff --git a/source/sc/sph-sp/plot.sc b/source/sc/sph-sp/plot.sc
index 47c3a98..accd8e4 100644
--- a/source/sc/sph-sp/plot.sc
+++ b/source/sc/sph-sp/plot.sc
@@ -50,7 +50,7 @@
   (free command))
 
 (define (sp-plot-samples a a-size) (void sp-sample-t* sp-time-t)
-  (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
+  (define path-size uint8-t (+ 2 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
   (snprintf path path-size "%s-%lu" sp-plot-temp-path
@@ -61,7 +61,7 @@
   (free path))
 
 (define (sp-plot-times a a-size) (void sp-time-t* sp-time-t)
-  (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
+  (define path-size uint8-t (+ 2 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
   (snprintf path path-size "%s-%lu" sp-plot-temp-path
@@ -95,7 +95,7 @@
 (define (sp-plot-spectrum-file path) (void uint8-t*) (sp-plot-samples-file path #t))
 
 (define (sp-plot-spectrum a a-size) (void sp-sample-t* sp-time-t)
-  (define path-size uint8-t (+ 1 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
+  (define path-size uint8-t (+ 2 sp-plot-temp-file-index-maxlength (strlen sp-plot-temp-path)))
   (define path uint8-t* (calloc path-size 1))
   (if (not path) return)
   (snprintf path path-size "%s-%lu" sp-plot-temp-path
-- 
2.43.0


From 1c717e6f9e5b605a3536d0c4d2bc540c7c78f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 51/53] fix: preparing a spline path arc again changed its
 shape

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 7eebd2b..8f38b51 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -350,7 +350,7 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
   return (result);
 }
 uint8_t spline_path_bezier_arc_prepare(spline_path_segment_t* s) {
-  (s->points)[1] = spline_path_perpendicular_point(((s->points)[0]), ((s->points)[2]), (((s->points)[1]).y));
+  (s->points)[1] = spline_path_perpendicular_point(((s->points)[0]), ((s->points)[2]), (((s->points)[3]).y));
   return (0);
 }
 
@@ -361,7 +361,9 @@ spline_path_segment_t spline_path_bezier_arc(spline_path_value_t x, spline_path_
   if (0.0 == curvature) {
     s = spline_path_line(x, y);
   } else {
-    s = spline_path_bezier1(0, curvature, x, y);
+    /* the curvature is kept in an unused point because prepare, which can be called repeatedly, sets the control point */
+    s = spline_path_bezier1(0, 0, x, y);
+    ((s.points)[3]).y = curvature;
     s.prepare = spline_path_bezier_arc_prepare;
   };
   return (s);
-- 
2.43.0


From 1009ce54b8996e6aaf39faf6d1a24ac0e0d39e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 52/53] fix: sine tables of odd sizes did not contain exactly
 one period

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f65c56f..6caccb1 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -194,7 +194,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * (M_PI / (size / 2.0))));
   };
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index e1bb8d8..650a4d7 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -126,7 +126,7 @@
 (define (sp-sine-period size out) (void sp-time-t sp-sample-t*)
   "writes one full period of a sine wave into out. the sine has the frequency that makes it fit exactly into size.
    can be used to create lookup tables"
-  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2)))))))
+  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2.0)))))))
 
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
-- 
2.43.0


From 3b5b1e0c519ec4b822c0893599964a2c41f0854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 53/53] fix: waves that start with a phase of a period or more
 read behind the waveform

---
 source/c-precompiled/sph-sp/main.c      | 2 +-
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/main.sc                | 2 +-
 source/sc/sph-sp/sequencer.sc           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 6caccb1..e2bdc10 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -200,7 +200,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 
 /** sums to out */
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
-  sp_time_t phs = (phs_state ? *phs_state : 0);
+  sp_time_t phs = (phs_state ? (*phs_state % wvf_size) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
     out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 155df18..09e0ffd 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -556,7 +556,7 @@ status_t sp_wave_event_generate(sp_time_t start, sp_time_t end, sp_block_t out,
           phsn = (phsn % c->wvf_size);
         };
       } else {
-        phsn = cc.phs;
+        phsn = ((cc.phs >= c->wvf_size) ? (cc.phs % c->wvf_size) : cc.phs);
       };
       (out.samples)[cc.channel][(i - start)] += (cc.amp * (cc.amod)[i] * (c->wvf)[phsn]);
       cc.phs += (cc.fmod ? (cc.frq + (cc.fmod)[i]) : cc.frq);
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 650a4d7..e2d9656 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -131,7 +131,7 @@
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
   "sums to out"
-  (define phs sp-time-t (if* phs-state *phs-state 0))
+  (define phs sp-time-t (if* phs-state (modulo *phs-state wvf-size) 0))
   (sp-for-each-index i size
     (set+ (array-get out i) (* amp (sp-optional-array-get amod amp i) (array-get wvf phs))
       phs (sp-optional-array-get fmod frq i))
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index bda64d1..16e48cd 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -406,7 +406,7 @@
         (begin
           (set phsn (+ cc.phs (array-get cc.pmod i)))
           (if (>= phsn c:wvf-size) (set phsn (modulo phsn c:wvf-size))))
-        (set phsn cc.phs))
+        (set phsn (if* (>= cc.phs c:wvf-size) (modulo cc.phs c:wvf-size) cc.phs)))
       (set+ (array-get out.samples cc.channel (- i start))
         (* cc.amp (array-get cc.amod i) (array-get c:wvf phsn)) cc.phs
         (if* cc.fmod (+ cc.frq (array-get cc.fmod i)) cc.frq))
-- 
2.43.0

