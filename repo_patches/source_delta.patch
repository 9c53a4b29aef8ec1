From 8a119f6abf00acc209faf022e1405bdc9259a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 01/32] fix: Never let a ring exceed its maximum size

gutil_ring_reserve() was looking at the allocated size before the
limit, so that a ring with more reserved slots than its maximum size
(or with the limit lowered afterwards) could be overfilled.
---
 src/gutil_ring.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..27ea057 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -225,12 +225,12 @@ gutil_ring_reserve(
     gint minsize)
 {
     if (G_LIKELY(r)) {
-        if (minsize <= r->alloc) {
+        if (r->maxsiz >= 0 && minsize > r->maxsiz) {
+            /* Can't hold that many elements */
+            return FALSE;
+        } else if (minsize <= r->alloc) {
             /* The buffer is already large enough */
             return TRUE;
-        } else if (r->maxsiz >= 0 && r->alloc >= r->maxsiz) {
-            /* Can't grow the buffer anymore */
-            return FALSE;
         } else {
             gpointer* buf;
 
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 0b2965b1165be69cf252e243bc90d456f98e6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 02/32] fix: Buffer overflow after gutil_ring_flatten()

The buffer was reallocated to the number of elements but the allocated
size wasn't updated, and the next put was writing past the end.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 27ea057..43bfc1c 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -426,7 +426,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From 81d1aa48c31663cb67aea3b045867261f3971ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 03/32] fix: Remove elements from the ring before freeing them

Otherwise the free function could find the element being freed still
in the ring (and free it again), or leave the ring in inconsistent
state by modifying it. And the new limit has to be in effect by then.
---
 src/gutil_ring.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 43bfc1c..97d7c28 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -140,10 +140,10 @@ gutil_ring_set_max_size(
     if (G_LIKELY(r) && r->maxsiz != max_size) {
         const gint size = gutil_ring_size(r);
 
+        r->maxsiz = max_size;
         if (max_size >= 0 && size > max_size) {
             gutil_ring_drop(r, size - max_size);
         }
-        r->maxsiz = max_size;
     }
 }
 
@@ -360,12 +360,13 @@ gutil_ring_drop(
             dropped = size;
             gutil_ring_clear(r);
         } else {
+            GDestroyNotify free_func = r->free_func;
+
             dropped = n;
-            if (r->free_func) {
-                while ((n--) > 0) {
-                    r->free_func(r->data[r->start]);
-                    r->start = (r->start + 1) % r->alloc;
-                    GASSERT(r->start != r->end);
+            if (free_func) {
+                /* The callback may modify the ring */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get(r));
                 }
             } else {
                 r->start = (r->start + n) % r->alloc;
@@ -388,12 +389,13 @@ gutil_ring_drop_last(
             dropped = size;
             gutil_ring_clear(r);
         } else {
+            GDestroyNotify free_func = r->free_func;
+
             dropped = n;
-            if (r->free_func) {
-                while ((n--) > 0) {
-                    r->end = (r->end + r->alloc - 1) % r->alloc;
-                    r->free_func(r->data[r->end]);
-                    GASSERT(r->start != r->end);
+            if (free_func) {
+                /* The callback may modify the ring */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get_last(r));
                 }
             } else {
                 r->end = (r->end + r->alloc - n) % r->alloc;
-- 
2.43.0


From 48a5764a31df2bfd26db2023254330a05a0688a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 04/32] fix: Survive dropping the last reference to idle queue
 from its callback

The queue was freed while it was still being used by the function
which has invoked the callback.
---
 src/gutil_idlequeue.c | 46 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..115fd5d 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -52,11 +52,35 @@ struct gutil_idle_queue_item {
 
 struct gutil_idle_queue {
     gint ref_count;
+    guint busy;
     guint source_id;
     GUtilIdleQueueItem* first;
     GUtilIdleQueueItem* last;
 };
 
+/*
+ * The last reference may be dropped by one of the callbacks, in which case
+ * the queue has to stay around until the calls in progress are done with it.
+ */
+
+static
+void
+gutil_idle_queue_enter(
+    GUtilIdleQueue* q)
+{
+    q->busy++;
+}
+
+static
+void
+gutil_idle_queue_leave(
+    GUtilIdleQueue* q)
+{
+    if (!--(q->busy) && !g_atomic_int_get(&q->ref_count)) {
+        gutil_slice_free(q);
+    }
+}
+
 static
 void
 gutil_idle_queue_item_destroy(
@@ -77,6 +101,9 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean more;
+
+    gutil_idle_queue_enter(q);
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -113,13 +140,14 @@ gutil_idle_queue_run(
     /* Free the completed items */
     g_slice_free_chain(GUtilIdleQueueItem, done, next);
 
-    if (q->first) {
-        /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
-    } else {
+    more = (q->first != NULL);
+    if (!more) {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
     }
+    gutil_idle_queue_leave(q);
+
+    /* Continue if new callbacks have been added */
+    return more ? G_SOURCE_CONTINUE : G_SOURCE_REMOVE;
 }
 
 GUtilIdleQueue*
@@ -157,8 +185,8 @@ gutil_idle_queue_unref(
     if (G_LIKELY(q)) {
         GASSERT(q->ref_count > 0);
         if (g_atomic_int_dec_and_test(&q->ref_count)) {
+            /* This frees the queue if it's not being used */
             gutil_idle_queue_cancel_all(q);
-            gutil_slice_free(q);
         }
     }
 }
@@ -266,11 +294,12 @@ gutil_idle_queue_cancel_tag(
         GUtilIdleQueueItem* item = q->first;
         if (item->tag == tag) {
             item->completed = TRUE;
+            gutil_idle_queue_enter(q);
             gutil_idle_queue_cancel_first(q);
-            GASSERT(q->source_id);
             if (!q->first) {
                 gutil_source_clear(&q->source_id);
             }
+            gutil_idle_queue_leave(q);
             return TRUE;
         } else {
             GUtilIdleQueueItem* prev = item;
@@ -299,6 +328,8 @@ gutil_idle_queue_cancel_all(
 {
     if (G_LIKELY(q)) {
         GUtilIdleQueueItem* item;
+
+        gutil_idle_queue_enter(q);
         for (item = q->first; item; item = item->next) {
             item->completed = TRUE;
         }
@@ -308,6 +339,7 @@ gutil_idle_queue_cancel_all(
         if (!q->first) {
             gutil_source_clear(&q->source_id);
         }
+        gutil_idle_queue_leave(q);
     }
 }
 
-- 
2.43.0


From bb46fd1b81a55c366e8133630f9638dd3cdd58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 05/32] fix: Idle pool was removing sources from a wrong
 context

gutil_idle_pool_add() attaches its source to the thread-default context
but g_source_remove() looks for it in the global default one. With
luck there was no such source there, otherwise a completely unrelated
source was removed.
---
 src/gutil_idlepool.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..3259e10 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -173,11 +173,13 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
+    if (self->idle) {
+        GSource* src = self->idle;
 
-        self->idle_id = 0;
-        g_source_remove(id);
+        /* Note that it's not necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
     }
 }
 
@@ -188,7 +190,8 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
+    g_source_unref(self->idle);
+    self->idle = NULL;
 
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
@@ -240,16 +243,16 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
+        if (!self->idle) {
             GSource* src = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
+            self->idle = src; /* Keep the reference */
         }
     }
     return pointer;
-- 
2.43.0


From d12ddc6d58ea491bd3a4839774342a94d9b2fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 06/32] fix: Keep idle pool alive while it's being drained

Nested drain was removing the idle source together with its reference
to the pool, which could be the last one.
---
 src/gutil_idlepool.c | 51 +++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 3259e10..8d808eb 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -129,6 +129,32 @@ gutil_idle_pool_ref(
     return self;
 }
 
+static
+void
+gutil_idle_pool_drain_items(
+    GUtilIdlePool* self)
+{
+    while (self->first) {
+        GUtilIdlePoolItem* items = self->first;
+        GUtilIdlePoolItem* item = items;
+
+        self->first = self->last = NULL;
+        while (item) {
+            item->destroy(item->pointer);
+            item = item->next;
+        }
+        g_slice_free_chain(GUtilIdlePoolItem, items, next);
+    }
+    if (self->idle) {
+        GSource* src = self->idle;
+
+        /* Note that it's not necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(src);
+        g_source_unref(src);
+    }
+}
+
 void
 gutil_idle_pool_unref(
     GUtilIdlePool* self)
@@ -138,7 +164,7 @@ gutil_idle_pool_unref(
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
             if (self->shared) *(self->shared) = NULL;
-            gutil_idle_pool_drain(self);
+            gutil_idle_pool_drain_items(self);
             gutil_slice_free(self);
         }
     }
@@ -162,25 +188,10 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
-    while (self->first) {
-        GUtilIdlePoolItem* items = self->first;
-        GUtilIdlePoolItem* item = items;
-
-        self->first = self->last = NULL;
-        while (item) {
-            item->destroy(item->pointer);
-            item = item->next;
-        }
-        g_slice_free_chain(GUtilIdlePoolItem, items, next);
-    }
-    if (self->idle) {
-        GSource* src = self->idle;
-
-        /* Note that it's not necessarily attached to the default context */
-        self->idle = NULL;
-        g_source_destroy(src);
-        g_source_unref(src);
-    }
+    /* Stay alive even if the items being destroyed release the last ref */
+    gutil_idle_pool_ref(self);
+    gutil_idle_pool_drain_items(self);
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From 85429a5fcdc4dbdae47b85e6bb94bc6d88d70b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 07/32] fix: Integer overflow in history median calculation

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..1610566 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From 50edcc546588e725fad8b689dc44ffa67173ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 08/32] fix: Clamp the count passed to
 gutil_int_array_remove_range() properly

---
 src/gutil_intarray.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..e0a9188 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,10 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max_count = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        /* Avoid pos + count which may overflow */
+        g_array_remove_range((GArray*)array, pos, MIN(count, max_count));
     }
     return array;
 }
-- 
2.43.0


From 4e65fde57185774bb35bf439c62f22fd42298d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 09/32] fix: Ignore out of range index in
 gutil_int_array_remove_index_fast()

---
 src/gutil_intarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index e0a9188..257a33e 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -288,7 +288,7 @@ gutil_int_array_remove_index_fast(
     GUtilIntArray* array,
     guint pos)
 {
-    if (array) {
+    if (array && pos < array->count) {
         g_array_remove_index_fast((GArray*)array, pos);
     }
     return array;
-- 
2.43.0


From 58be17045e982afbd5beb49f2d60c1c6f0f03d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 10/32] fix: Integer overflow when sorting an array of ints

---
 src/gutil_intarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 257a33e..3b533be 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -318,7 +318,7 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -339,7 +339,7 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From d8633fe9cd31a7cd325d4083338303d8164f92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 11/32] fix: Overflow and reference leak in
 gutil_ints_new_from_ints()

---
 src/gutil_ints.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..77d1330 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -111,13 +111,16 @@ gutil_ints_new_from_ints(
     guint count)
 {
     if (ints && offset < ints->count) {
-        guint end = offset + count;
+        const guint max_count = ints->count - offset;
 
-        if (end > ints->count) {
-            end = ints->count;
+        /* Avoid offset + count which may overflow */
+        if (count > max_count) {
+            count = max_count;
+        }
+        if (count) {
+            return gutil_ints_new_with_free_func(ints->data + offset, count,
+                gutil_ints_unref1, gutil_ints_ref(ints));
         }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 7ee630ae66e42923e5187639a12ee74442c598fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 12/32] fix: gutil_ints_unref_to_data() for data which is not
 malloc'ed separately

---
 src/gutil_ints.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 77d1330..1537de3 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -162,12 +162,14 @@ gutil_ints_unref_to_data(
             *count = ints->count;
         }
         if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
+            if (ints->free_func == g_free && ints->user_data == ints->data) {
                 /* We can allow the caller to free the data */
                 result = (int*)ints->data;
             } else {
                 result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
+                if (ints->free_func) {
+                    ints->free_func(ints->user_data);
+                }
             }
             gutil_slice_free(ints);
         } else {
-- 
2.43.0


From 57f76ed2570c7e382c9278ad91bbeebaf53bc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 13/32] fix: Use after free in gutil_strv_remove()

---
 src/gutil_strv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..578f36f 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,18 +244,24 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            char* match = sv[pos];
 
-            sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
+            /*
+             * The string we have been asked to remove may be one of those
+             * being removed, keep one of the matching strings until the end.
+             */
+            sv = gutil_strv_remove_impl(sv, pos, len, FALSE);
             if (remove_all) {
                 int i, l;
 
                 len--;
                 l = len - pos;
-                while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
+                while ((i = gutil_strv_find_last_impl(sv + pos, match, l)) >= 0) {
                     sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
                     l = i;
                 }
             }
+            g_free(match);
         }
     }
     return sv;
-- 
2.43.0


From 74571d34d967701379eb4b21da2491d57f4dcbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 14/32] fix: Check the sign bit of 10-byte signed multi-byte
 numbers

---
 src/gutil_datapack.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..b047120 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -165,8 +165,8 @@ gutil_signed_mbn_decode(
                         in->ptr += off;
                         return TRUE;
                     } else {
-                        /* Unused bits must be set to 1 */
-                        if ((msc | ((1 << (maxbits - nbits)) - 1)) == 0xff) {
+                        /* Sign and unused bits must be set to 1 */
+                        if ((msc | ((1 << (maxbits - nbits - 1)) - 1)) == 0xff) {
                             if (out) {
                                 *out = value;
                             }
@@ -175,10 +175,9 @@ gutil_signed_mbn_decode(
                         }
                     }
                 } else {
-                    /* Positive number, unused bits (if any) must be zeroed */
-                    /* Unused bits must be zeroed */
+                    /* Positive number, sign and unused bits must be zeroed */
                     if ((nbits + 7) < maxbits ||
-                        (msc & ~((1 << (maxbits - nbits)) - 1)) == 0x80) {
+                        (msc & ~((1 << (maxbits - nbits - 1)) - 1)) == 0x80) {
                         if (out) {
                             *out = value;
                         }
-- 
2.43.0


From ffa4487e659c377628c5d6afe0a88db817db30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 15/32] fix: Out of bounds TLV value with length exceeding
 G_MAXSSIZE

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index b047120..518f045 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -410,7 +410,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (gsize) (tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From 0645fe75e2002b25e8736089d188546b709a5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 16/32] fix: Treat zero tag as a broken TLV

---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 518f045..c7b2dba 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -408,7 +408,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (gsize) (tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From 51d66c462a20516062c15c4e7fbfb792966a4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 17/32] fix: NULL log module must be treated as the default one

gutil_log() was ignoring GLOG_FLAG_DISABLE and parent of gutil_log_default
if no module was given, unlike gutil_log_enabled()
---
 src/gutil_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..ae2c6e4 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -437,6 +437,7 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
+        if (!module) module = &gutil_log_default;
         gutil_logv_r(module, module, level, format, va);
     }
 }
-- 
2.43.0


From 8e394f8e471eb3c3f5fc6a1756734050dc22c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 18/32] fix: Uninitialized timestamp buffer if the timestamp
 doesn't fit

---
 src/gutil_log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index ae2c6e4..e63cd5b 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,9 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            t[0] = 0; /* Contents is undefined if it doesn't fit */
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From 52399683fbab72ebd07913a5b1ce2b266fa2174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 19/32] fix: Blank string isn't a valid signed number

---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..97a0b14 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -312,7 +312,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end != stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
-- 
2.43.0


From 824eda56dccd370c7b8fab474011059674af4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 20/32] fix: Blank string isn't a valid unsigned number

---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 97a0b14..09f8bbf 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -347,7 +347,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end != stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From e290685f1be73211412baeb0448da57b16b1d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 21/32] fix: Negative number preceded by vertical tab is not
 unsigned

---
 src/gutil_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 09f8bbf..d2bd74d 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -341,7 +341,8 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        /* g_ascii_strtoull() skips more kinds of spaces than we do */
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0


From 3147e999a3cec031f2ef6c799dfd6bcd91299ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 22/32] fix: close the inotify descriptor only once

g_io_channel_shutdown() has already closed it by the time close() is
called, and the same number may have been reused by then.
---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..6366cff 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -120,9 +120,9 @@ gutil_inotify_unref(
         }
         GASSERT(!g_hash_table_size(self->watches));
         g_hash_table_destroy(self->watches);
+        /* This closes the file descriptor */
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From fe156b935998925df70b5ac2587dab32af006a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/32] fix: let several inotify watches share the same
 directory

inotify_add_watch() returns the same descriptor for the same inode and
replaces the mask. The second watch for a directory replaced the first
one in the hash table, the first one no longer received anything and
destroying either of them stopped both.
---
 src/gutil_inotify.c | 100 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 84 insertions(+), 16 deletions(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 6366cff..2a9573d 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -64,7 +64,7 @@ typedef GUtilInotifyWatch GUtilInotifyWatch;
 struct gutil_inotify_watch {
     GObject object;
     GUtilInotify* inotify;
-    GUtilInotifyWatch* parent;
+    GUtilInotifyWatch* next; /* Another watch with the same descriptor */
     guint32 mask;
     char* path;
     int wd;
@@ -130,6 +130,28 @@ gutil_inotify_unref(
     }
 }
 
+static
+GUtilInotifyWatch*
+gutil_inotify_first_watch(
+    GUtilInotify* self,
+    int wd)
+{
+    return g_hash_table_lookup(self->watches, GINT_TO_POINTER(wd));
+}
+
+static
+gboolean
+gutil_inotify_has_watch(
+    GUtilInotify* self,
+    int wd,
+    const GUtilInotifyWatch* watch)
+{
+    const GUtilInotifyWatch* ptr = gutil_inotify_first_watch(self, wd);
+
+    while (ptr && ptr != watch) ptr = ptr->next;
+    return ptr != NULL;
+}
+
 static
 gboolean
 gutil_inotify_read(
@@ -159,15 +181,26 @@ gutil_inotify_read(
             if (len > nbytes) {
                 break;
             } else  {
-                GUtilInotifyWatch* watch = g_hash_table_lookup(self->watches,
-                    GINT_TO_POINTER(event->wd));
-
-                if (watch) {
-                    gutil_inotify_watch_ref(watch);
-                    g_signal_emit(watch,
-                        gutil_inotify_watch_signals[SIGNAL_WATCH_EVENT], 0,
-                            event->mask, event->cookie, path);
-                    gutil_inotify_watch_unref(watch);
+                GUtilInotifyWatch* watch = gutil_inotify_first_watch(self,
+                    event->wd);
+                GSList* list = NULL;
+
+                for (; watch; watch = watch->next) {
+                    list = g_slist_append(list, watch);
+                }
+                while (list) {
+                    watch = list->data;
+                    list = g_slist_delete_link(list, list);
+                    /* The previous handler may have destroyed this one */
+                    if (gutil_inotify_has_watch(self, event->wd, watch) &&
+                        (event->mask &
+                        (watch->mask | IN_IGNORED | IN_UNMOUNT))) {
+                        gutil_inotify_watch_ref(watch);
+                        g_signal_emit(watch,
+                            gutil_inotify_watch_signals[SIGNAL_WATCH_EVENT], 0,
+                                event->mask, event->cookie, path);
+                        gutil_inotify_watch_unref(watch);
+                    }
                 }
                 next += len;
                 nbytes -= len;
@@ -254,18 +287,43 @@ gutil_inotify_add_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    /* Watches for the same file or directory share the descriptor */
+    GUtilInotifyWatch* last = gutil_inotify_first_watch(self, watch->wd);
+
     GASSERT(watch->wd >= 0);
-    g_hash_table_insert(self->watches, GINT_TO_POINTER(watch->wd), watch);
+    if (last) {
+        while (last->next) last = last->next;
+        last->next = watch;
+    } else {
+        g_hash_table_insert(self->watches, GINT_TO_POINTER(watch->wd), watch);
+    }
 }
 
 static
-void
+gboolean
 gutil_inotify_remove_watch(
     GUtilInotify* self,
     GUtilInotifyWatch* watch)
 {
+    const gpointer key = GINT_TO_POINTER(watch->wd);
+    GUtilInotifyWatch* first = gutil_inotify_first_watch(self, watch->wd);
+    GUtilInotifyWatch** ptr = &first;
+
     GASSERT(watch->wd >= 0);
-    GVERIFY(g_hash_table_remove(self->watches, GINT_TO_POINTER(watch->wd)));
+    while (*ptr && *ptr != watch) ptr = &(*ptr)->next;
+    GASSERT(*ptr);
+    if (*ptr) {
+        *ptr = watch->next;
+        watch->next = NULL;
+    }
+    if (first) {
+        /* Someone else is still using the descriptor */
+        g_hash_table_insert(self->watches, key, first);
+        return FALSE;
+    } else {
+        g_hash_table_remove(self->watches, key);
+        return TRUE;
+    }
 }
 
 /*==========================================================================*
@@ -281,7 +339,16 @@ gutil_inotify_watch_new(
         GUtilInotify* inotify = gutil_inotify_new();
 
         if (G_LIKELY(inotify)) {
-            int wd = inotify_add_watch(inotify->fd, path, mask);
+            /*
+             * If this file or directory is being watched already, that
+             * watch must keep receiving whatever it's waiting for.
+             */
+#ifdef IN_MASK_CREATE
+            int wd = inotify_add_watch(inotify->fd, path,
+                (mask & IN_MASK_CREATE) ? mask : (mask | IN_MASK_ADD));
+#else
+            int wd = inotify_add_watch(inotify->fd, path, mask | IN_MASK_ADD);
+#endif
 
             if (wd >= 0) {
                 GUtilInotifyWatch* self = g_object_new(THIS_TYPE, NULL);
@@ -310,8 +377,9 @@ gutil_inotify_watch_stop(
     GUtilInotifyWatch* self)
 {
     if (self->wd >= 0) {
-        gutil_inotify_remove_watch(self->inotify, self);
-        inotify_rm_watch(self->inotify->fd, self->wd);
+        if (gutil_inotify_remove_watch(self->inotify, self)) {
+            inotify_rm_watch(self->inotify->fd, self->wd);
+        }
         self->wd = -1;
     }
 }
-- 
2.43.0


From 9bc3d4e6448ac5aec3369bf56bd5f5fd9730f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 24/32] fix: copy integers before dropping the reference

gutil_ints_unref_to_data() was copying the data after having dropped its
reference, when another thread may have dropped the last one.
---
 src/gutil_ints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 1537de3..adc8350 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -161,19 +161,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free && ints->user_data == ints->data) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                if (ints->free_func) {
-                    ints->free_func(ints->user_data);
-                }
-            }
+        if (ints->free_func == g_free && ints->user_data == ints->data &&
+            g_atomic_int_get(&ints->ref_count) == 1) {
+            /* Nobody else is using it, the caller can free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* Copy the data while we still have a reference */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From 167f8b3933f691915cbcb810a1d92bc46da580f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 25/32] fix: Clear handler id before disconnecting the handler

The destroy notification could disconnect the same handlers again.
---
 src/gutil_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index d2bd74d..69eb678 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -53,8 +53,11 @@ gutil_disconnect_handlers(
 
         for (i=0; i<count; i++) {
             if (ids[i]) {
-                g_signal_handler_disconnect(instance, ids[i]);
+                const gulong id = ids[i];
+
+                /* The closure may have a destroy notification */
                 ids[i] = 0;
+                g_signal_handler_disconnect(instance, id);
             }
         }
     }
-- 
2.43.0


From 6a2fa1fc35bc7acf38afeb478c0d5bc2848c955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 26/32] fix: Clear source id before removing the source

The destroy notification could remove the same source again, or store
the id of a new one which was then lost.
---
 src/gutil_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 69eb678..925c50a 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -102,8 +102,11 @@ gutil_source_clear(
 {
     /* Yet another zero-tolerant version of g_source_remove */
     if (id && *id) {
-        g_source_remove(*id);
+        const guint source_id = *id;
+
+        /* The source may have a destroy notification */
         *id = 0;
+        g_source_remove(source_id);
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From dccdb539d800832923a9b1440262e35fe91bbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 27/32] fix: Log dump of data whose size doesn't fit into 32
 bits

The truncated size could be zero, meaning an endless loop.
---
 src/gutil_log.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index e63cd5b..ed26996 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -512,14 +512,17 @@ gutil_log_dump2(
     gsize size)
 {
     const guint8* ptr = data;
-    guint off = 0;
+    gsize off = 0;
 
     if (!prefix) prefix = "";
     while (size > 0) {
         char buf[GUTIL_HEXDUMP_BUFSIZE];
-        const guint consumed = gutil_hexdump(buf, ptr + off, size);
+        /* gsize may not fit into guint */
+        const guint consumed = gutil_hexdump(buf, ptr + off,
+            MIN(size, GUTIL_HEXDUMP_MAXBYTES));
 
-        gutil_log(module, level, "%s%04X: %s", prefix, off, buf);
+        gutil_log(module, level, "%s%04" G_GSIZE_MODIFIER "X: %s", prefix,
+            off, buf);
         size -= consumed;
         off += consumed;
     }
-- 
2.43.0


From 2106bdc08768e797590aebad306c557539102576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 28/32] fix: Unbalanced parentheses in version macros

---
 include/gutil_version.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gutil_version.h b/include/gutil_version.h
index 8d47af5..80d10fc 100644
--- a/include/gutil_version.h
+++ b/include/gutil_version.h
@@ -78,11 +78,11 @@ extern const guint gutil_version_micro; /* GUTIL_VERSION_MICRO */
 #define GUTIL_VERSION_1_0_72 GUTIL_VERSION_(1,0,72)
 #define GUTIL_VERSION_1_0_73 GUTIL_VERSION_(1,0,73)
 #define GUTIL_VERSION_1_0_74 GUTIL_VERSION_(1,0,74)
-#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75))
-#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76))
-#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77))
-#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78))
-#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79))
+#define GUTIL_VERSION_1_0_75 GUTIL_VERSION_(1,0,75)
+#define GUTIL_VERSION_1_0_76 GUTIL_VERSION_(1,0,76)
+#define GUTIL_VERSION_1_0_77 GUTIL_VERSION_(1,0,77)
+#define GUTIL_VERSION_1_0_78 GUTIL_VERSION_(1,0,78)
+#define GUTIL_VERSION_1_0_79 GUTIL_VERSION_(1,0,79)
 
 G_END_DECLS
 
-- 
2.43.0


From 1a59fd9c2af904840969c0f15f0a0bcee529ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 29/32] fix: Assertion in gutil_int_history_size() holds for a
 single entry

---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 1610566..d15cbb7 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -139,7 +139,7 @@ gutil_int_history_size(
             if (h->first > h->last) {
                 return (h->max_size + h->last - h->first + 1);
             } else {
-                GASSERT(h->last > h->first);
+                GASSERT(h->last >= h->first);
                 return (h->last - h->first + 1);
             }
         }
-- 
2.43.0


From 22cd7258e49a3cdb2fde6e50f1a404b753b47320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 30/32] fix: Overflow of the history integral over a long time

---
 src/gutil_history.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index d15cbb7..56f865b 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -181,18 +181,32 @@ gutil_int_history_median_at(
     if (h->first == h->last) {
         return h->entry[h->last].value;
     } else {
+        const gint64 start = h->entry[h->first].time;
+        const gint64 total = h->entry[h->last].time - start;
         int pos = h->first;
         int v = h->entry[pos].value;
-        gint64 t = h->entry[pos].time;
+        gint64 max = MAX(ABS((gint64)v), 1);
+        gint64 t = 0;
         gint64 dt = 0;
         gint64 area = 0;
+        guint shift = 0;
 
+        /* Scale the time down if the integral doesn't fit into 64 bits */
+        while (pos != h->last) {
+            pos = (pos + 1) % h->max_size;
+            max = MAX(max, ABS((gint64)h->entry[pos].value));
+        }
+        while ((total >> shift) > G_MAXINT64 / (2 * max)) {
+            shift++;
+        }
+
+        pos = h->first;
         while (pos != h->last) {
             gint64 t1;
             int v1;
 
             pos = (pos + 1) % h->max_size;
-            t1 = h->entry[pos].time;
+            t1 = (h->entry[pos].time - start) >> shift;
             v1 = h->entry[pos].value;
             dt += t1 - t;
             area += (t1 - t)*((gint64)v + v1)/2;
-- 
2.43.0


From 69b4a9cf5d94483c3ae0947c2cbb18f739288b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 31/32] fix: Overflow of the history cutoff if the clock is
 negative

---
 src/gutil_history.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 56f865b..1576eb2 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -115,11 +115,10 @@ gutil_int_history_flush(
     GUtilIntHistory* h,
     const gint64 now)
 {
-    const gint64 cutoff = now - h->max_interval;
-
-    if (h->entry[h->last].time >= cutoff) {
+    /* Compare the age, (now - max_interval) may overflow if now is negative */
+    if (now - h->entry[h->last].time <= h->max_interval) {
         /* At least the last entry is valid */
-        while (h->entry[h->first].time < cutoff) {
+        while (now - h->entry[h->first].time > h->max_interval) {
             h->first = (h->first + 1) % h->max_size;
         }
         return TRUE;
-- 
2.43.0


From 62ad7923d6b72aa8911400035e15e901c1a0982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:11 +0000
Subject: [PATCH 32/32] fix: gutil_objv_append() never ended if an array was
 appended to itself

---
 src/gutil_objv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gutil_objv.c b/src/gutil_objv.c
index b226da6..1015891 100644
--- a/src/gutil_objv.c
+++ b/src/gutil_objv.c
@@ -152,15 +152,21 @@ gutil_objv_append(
 
     if (len2 > 0) {
         const gsize len1 = gutil_ptrv_length(objv);
+        GObject** objv1 = objv;
         GObject* const* src;
         GObject** dest;
 
-        objv = g_renew(GObject*, objv, len1 + len2 + 1);
+        /* The objects being appended may be those of the same array */
+        objv = g_new(GObject*, len1 + len2 + 1);
         dest = objv + len1;
         src = objs;
         while (*src) {
             *dest++ = g_object_ref(*src++);
         }
+        if (len1 > 0) {
+            memcpy(objv, objv1, sizeof(GObject*) * len1);
+        }
+        g_free(objv1);
         *dest = NULL;
     }
     return objv;
-- 
2.43.0

