From 6c8e332922c37ae58f35630fa561337170d380ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 01/35] fix: map memory acquired from a reservation at its
 place in the reservation

---
 src/gc-platform-gnu-linux.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gc-platform-gnu-linux.c b/src/gc-platform-gnu-linux.c
index 3ace189..c2224fa 100644
--- a/src/gc-platform-gnu-linux.c
+++ b/src/gc-platform-gnu-linux.c
@@ -162,8 +162,12 @@ gc_platform_acquire_memory_from_reservation(struct gc_reservation reservation,
   GC_ASSERT(size <= reservation.size);
   GC_ASSERT(offset <= reservation.size - size);
 
+  // The reservation is already mapped (PROT_NONE); without MAP_FIXED, the kernel
+  // would leave it in place and return memory somewhere else, not at the
+  // requested offset and not with the reservation's alignment.
   void *mem = mmap((void*)(reservation.base + offset), size,
-                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+                   PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,
+                   -1, 0);
   if (mem == MAP_FAILED) {
     perror("mmap failed");
     return NULL;
-- 
2.43.0


From a21f9b55a938d0ba831f4cadb352228092db3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 02/35] fix: mmc's check of the inline allocation patterns when
 tracing conservatively

---
 src/mmc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index d2bc4df..c3732e1 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1160,7 +1160,10 @@ gc_init(const struct gc_options *options, struct gc_stack_addr stack_base,
                offsetof(struct nofl_allocator, sweep));
   GC_ASSERT_EQ(gc_allocator_alloc_table_alignment(), NOFL_SLAB_SIZE);
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED),
-               NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_PRECISELY);
+               NOFL_METADATA_BYTE_YOUNG |
+               (GC_CONSERVATIVE_TRACE
+                ? NOFL_METADATA_BYTE_TRACE_CONSERVATIVELY
+                : NOFL_METADATA_BYTE_TRACE_PRECISELY));
   GC_ASSERT_EQ(gc_allocator_alloc_table_begin_pattern(GC_ALLOCATION_TAGGED_POINTERLESS),
                NOFL_METADATA_BYTE_YOUNG | NOFL_METADATA_BYTE_TRACE_NONE);
   if (GC_CONSERVATIVE_TRACE) {
-- 
2.43.0


From b4bd365ef362efa29cb262f07cdea880e4fce848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 03/35] fix: any mutator may call out of the heap, not only the
 first one added

---
 src/mmc.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index c3732e1..60befc2 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -1237,7 +1237,6 @@ gc_finish_for_thread(struct gc_mutator *mut) {
 
 static void
 deactivate_mutator(struct gc_heap *heap, struct gc_mutator *mut) {
-  GC_ASSERT(mut->next == NULL);
   nofl_allocator_finish(&mut->allocator, heap_nofl_space(heap));
   if (GC_GENERATIONAL)
     gc_field_set_writer_release_buffer(&mut->logger);
-- 
2.43.0


From 88d76b07531c6b20366432686dcbc4be3256d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 04/35] fix: mmc without generations must not perform minor
 collections

---
 src/mmc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 60befc2..514f2d1 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -607,6 +607,13 @@ determine_collection_kind(struct gc_heap *heap,
     gc_kind = GC_COLLECTION_MAJOR;
   }
 
+  if (!GC_GENERATIONAL && gc_kind == GC_COLLECTION_MINOR) {
+    // Without write barriers there is no remembered set, so a minor collection
+    // would miss old-to-new edges.
+    DEBUG("no generations; upgrading requested minor collection to major\n");
+    gc_kind = GC_COLLECTION_MAJOR;
+  }
+
   // If this is the first in a series of minor collections, reset the
   // threshold at which we should do a major GC.
   if (gc_kind == GC_COLLECTION_MINOR &&
-- 
2.43.0


From 00002189c3c58391d015c5ae02dd9ab9ef10e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 05/35] fix: mmc can trace pinned objects when the heap is not
 conservative

---
 src/nofl-space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 2668232..7d5c9ca 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1735,7 +1735,12 @@ nofl_space_object_size(struct nofl_space *space, struct gc_ref ref) {
 static inline enum gc_trace_kind
 nofl_metadata_byte_trace_kind(uint8_t byte)
 {
-  switch (byte & NOFL_METADATA_BYTE_TRACE_KIND_MASK) {
+  // Unless the heap is conservative, the high bit of the trace kind is instead
+  // the pinned bit.
+  uint8_t mask = GC_CONSERVATIVE_TRACE
+    ? NOFL_METADATA_BYTE_TRACE_KIND_MASK
+    : NOFL_METADATA_BYTE_TRACE_KIND_MASK & ~NOFL_METADATA_BYTE_PINNED;
+  switch (byte & mask) {
   case NOFL_METADATA_BYTE_TRACE_PRECISELY:
     return GC_TRACE_PRECISELY;
   case NOFL_METADATA_BYTE_TRACE_NONE:
-- 
2.43.0


From 0e695efb45760d5bd5cea1c162e1d03a0886c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 06/35] fix: mmc can trace external objects

---
 src/mmc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 514f2d1..539e675 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -336,10 +336,12 @@ static inline struct gc_trace_plan
 trace_plan(struct gc_heap *heap, struct gc_ref ref) {
   if (GC_LIKELY(nofl_space_contains(heap_nofl_space(heap), ref))) {
     return nofl_space_object_trace_plan(heap_nofl_space(heap), ref);
-  } else {
-    return large_object_space_object_trace_plan(heap_large_object_space(heap),
-                                                ref);
   }
+  struct large_object_space *lospace = heap_large_object_space(heap);
+  if (GC_LIKELY(large_object_space_contains_with_lock(lospace, ref)))
+    return large_object_space_object_trace_plan(lospace, ref);
+  // External object.
+  return (struct gc_trace_plan){ GC_TRACE_PRECISELY, };
 }
 
 static inline void
-- 
2.43.0


From d071345971a9eaaa2fa4dec3ed6109b22565b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 07/35] fix: generational pcc deadlock when a large object
 refers to a survivor

---
 src/large-object-space.h | 30 +++++++++++++++++++++++-------
 src/pcc.c                |  5 +++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index cdd7983..82e17a0 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -255,13 +255,8 @@ large_object_space_is_survivor(struct large_object_space *space,
 }
 
 static int
-large_object_space_remember_edge(struct large_object_space *space,
-                                 struct gc_ref obj,
-                                 struct gc_edge edge) {
-  GC_ASSERT(large_object_space_contains(space, obj));
-  if (!large_object_space_is_survivor(space, obj))
-    return 0;
-
+large_object_space_log_edge(struct large_object_space *space,
+                            struct gc_edge edge) {
   uintptr_t edge_addr = gc_edge_address(edge);
   int remembered = 0;
   pthread_mutex_lock(&space->remembered_edges_lock);
@@ -273,6 +268,27 @@ large_object_space_remember_edge(struct large_object_space *space,
   return remembered;
 }
 
+static int
+large_object_space_remember_edge(struct large_object_space *space,
+                                 struct gc_ref obj,
+                                 struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains(space, obj));
+  if (!large_object_space_is_survivor(space, obj))
+    return 0;
+  return large_object_space_log_edge(space, edge);
+}
+
+// As above, but for use during collection, when the space lock is already held.
+static int
+large_object_space_remember_edge_with_lock(struct large_object_space *space,
+                                           struct gc_ref obj,
+                                           struct gc_edge edge) {
+  GC_ASSERT(large_object_space_contains_with_lock(space, obj));
+  if (!large_object_space_is_marked(space, obj))
+    return 0;
+  return large_object_space_log_edge(space, edge);
+}
+
 static void
 large_object_space_forget_edge(struct large_object_space *space,
                                struct gc_edge edge) {
diff --git a/src/pcc.c b/src/pcc.c
index 0b137f5..ace87c7 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -282,8 +282,9 @@ static int remember_edge_to_survivor_object(struct gc_heap *heap,
     large_object_space_object_containing_edge(heap_large_object_space(heap),
                                               edge);
   if (!gc_ref_is_null(large_object))
-    return large_object_space_remember_edge(heap_large_object_space(heap),
-                                            large_object, edge);
+    return
+      large_object_space_remember_edge_with_lock(heap_large_object_space(heap),
+                                                 large_object, edge);
   return 0;
 }
 
-- 
2.43.0


From b534da579bc705dec683e7e57348295a78628f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 08/35] fix: large objects fresh from the OS are part of the
 nursery too

---
 src/large-object-space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/large-object-space.h b/src/large-object-space.h
index 82e17a0..cf17bff 100644
--- a/src/large-object-space.h
+++ b/src/large-object-space.h
@@ -498,6 +498,9 @@ large_object_space_alloc(struct large_object_space *space, size_t npages,
         large_object_tree_insert(&space->object_tree, k, v);
       uintptr_t node_bits = (uintptr_t)node;
       address_map_add(&space->object_map, addr, node_bits);
+      // Add the object to the nursery.
+      if (GC_GENERATIONAL)
+        address_map_add(&space->nursery, addr, node_bits);
       space->total_pages += npages;
       pthread_mutex_unlock(&space->object_tree_lock);
     }
-- 
2.43.0


From 5f02d5b543b8b5cdefea935457dbeba68bb73ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 09/35] fix: bring a paged-out block back when evacuation runs
 out of blocks

---
 src/copy-space.h | 12 ++++++++++++
 src/pcc.c        | 11 +++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 7f262c2..1b05066 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -319,6 +319,18 @@ copy_space_maybe_reacquire_memory(struct copy_space *space, size_t bytes) {
   return pending;
 }
 
+static int
+copy_space_page_in_block_for_evacuation(struct copy_space *space) {
+  struct gc_lock lock = copy_space_lock(space);
+  struct copy_space_block *block = copy_space_page_in_block(space, &lock);
+  if (block) {
+    copy_space_push_empty_block(space, block, &lock);
+    atomic_fetch_add(&space->bytes_to_page_out, COPY_SPACE_BLOCK_SIZE);
+  }
+  gc_lock_release(&lock);
+  return block != NULL;
+}
+
 static void
 copy_space_reacquire_memory(struct copy_space *space, size_t bytes) {
   ssize_t pending = copy_space_maybe_reacquire_memory(space, bytes);
diff --git a/src/pcc.c b/src/pcc.c
index ace87c7..45b74e9 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -302,6 +302,7 @@ static inline int forward(struct copy_space *src_space,
                           struct gc_edge edge,
                           struct gc_ref ref,
                           struct copy_space_allocator *dst_alloc) {
+retry:
   switch (copy_space_forward(src_space, dst_space, edge, ref, dst_alloc)) {
   case COPY_SPACE_FORWARD_UPDATED:
     return 0;
@@ -310,10 +311,12 @@ static inline int forward(struct copy_space *src_space,
   case COPY_SPACE_FORWARD_FAILED:
     // If space is really tight and reordering of objects during evacuation
     // resulted in more end-of-block fragmentation and thus block use than
-    // before collection started, we can actually run out of memory while
-    // collecting.  We should probably attempt to expand the heap here, at
-    // least by a single block; it's better than the alternatives.  For now,
-    // abort.
+    // before collection started, or if blocks were paged out to make room for
+    // large objects, we can actually run out of memory while collecting.  Bring
+    // back a block if we have one; it will be paged out again as soon as
+    // possible.  Otherwise, abort.
+    if (copy_space_page_in_block_for_evacuation(dst_space))
+      goto retry;
     fprintf(stderr, "Out of memory\n");
     GC_CRASH();
     break;
-- 
2.43.0


From 2de4af3368327ec2c013dedbed62e8da8a86b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 10/35] fix: generational pcc visits external objects in minor
 collections

---
 src/pcc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pcc.c b/src/pcc.c
index 45b74e9..1192d88 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -388,11 +388,14 @@ static inline int do_minor_trace(struct gc_heap *heap, struct gc_edge edge,
     // Promote the object.
     return forward(new_space, old_space, edge, ref,
                    trace_worker_old_space_allocator(data));
-  } else {
-    // Note that although the target of the edge might not be in lospace, this
-    // will do what we want and return 1 if and only if ref is was a young
-    // object in lospace.
+  } else if (old_space_contains(heap, ref)) {
+    return 0;
+  } else if (large_object_space_contains_with_lock(heap_large_object_space(heap),
+                                                   ref)) {
+    // Returns 1 if and only if ref was a young object in lospace.
     return large_object_space_mark(heap_large_object_space(heap), ref);
+  } else {
+    return gc_extern_space_visit(heap_extern_space(heap), edge, ref);
   }
 }
 
-- 
2.43.0


From 26d1451cdd75ae4ac24e2d3f530dd8ecab1863fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 11/35] fix: mmc mutators learn the kind of the collection that
 paused them

---
 src/mmc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmc.c b/src/mmc.c
index 539e675..f618909 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -453,7 +453,6 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   MUTATOR_EVENT(mut, mutator_stopping);
   MUTATOR_EVENT(mut, mutator_stopped);
   heap->paused_mutator_count++;
-  enum gc_collection_kind collection_kind = heap->gc_kind;
   if (all_mutators_stopped(heap))
     pthread_cond_signal(&heap->collector_cond);
 
@@ -462,6 +461,10 @@ pause_mutator_for_collection(struct gc_heap *heap, struct gc_mutator *mut) {
   while (mutators_are_stopping(heap));
   heap->paused_mutator_count--;
 
+  // The kind of the collection that just finished; it was not yet known when
+  // mutators were asked to stop.
+  enum gc_collection_kind collection_kind = heap->gc_kind;
+
   MUTATOR_EVENT(mut, mutator_restarted);
   return collection_kind;
 }
-- 
2.43.0


From 8c7f24fd35c3b8ee9800a8ac6e22d49c64e1c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 12/35] fix: address_set_union grows the set as it inserts

---
 src/address-set.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/address-set.h b/src/address-set.h
index b1c27fa..805e235 100644
--- a/src/address-set.h
+++ b/src/address-set.h
@@ -175,7 +175,10 @@ static int address_set_contains(struct address_set *set, uintptr_t addr) {
 static void address_set_union(struct address_set *set, struct address_set *other) {
   while (set->hash_set.size < other->hash_set.size)
     hash_set_grow(&set->hash_set);
-  hash_set_populate(&set->hash_set, &other->hash_set);
+  // The union may have more items than either of the sets; grow as needed.
+  for (size_t i = 0; i < other->hash_set.size; i++)
+    if (!hash_set_slot_is_empty(&other->hash_set, i))
+      hash_set_insert(&set->hash_set, hash_set_slot_ref(&other->hash_set, i));
 }
 
 struct address_set_for_each_data {
-- 
2.43.0


From a019f8970ed44385cd585598cb71f802bb4e2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 13/35] Optionally build tracing worklists small, for model
 checking (GC_MC_SMALL_WORKLISTS)

---
 src/local-worklist.h  | 4 ++++
 src/shared-worklist.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/local-worklist.h b/src/local-worklist.h
index 8dcd3e2..3523de0 100644
--- a/src/local-worklist.h
+++ b/src/local-worklist.h
@@ -3,7 +3,11 @@
 
 #include "assert.h"
 
+#ifdef GC_MC_SMALL_WORKLISTS // Model checking: reach the boundaries quickly.
+#define LOCAL_WORKLIST_SIZE 4
+#else
 #define LOCAL_WORKLIST_SIZE 1024
+#endif
 #define LOCAL_WORKLIST_MASK (LOCAL_WORKLIST_SIZE - 1)
 #define LOCAL_WORKLIST_SHARE_AMOUNT (LOCAL_WORKLIST_SIZE * 3 / 4)
 struct local_worklist {
diff --git a/src/shared-worklist.h b/src/shared-worklist.h
index 979c871..3cbfa66 100644
--- a/src/shared-worklist.h
+++ b/src/shared-worklist.h
@@ -24,7 +24,11 @@ struct shared_worklist_buf {
 };
 
 // Min size: 8 kB on 64-bit systems, 4 kB on 32-bit.
+#ifdef GC_MC_SMALL_WORKLISTS // Model checking: reach the boundaries quickly.
+#define shared_worklist_buf_min_log_size ((unsigned) 2)
+#else
 #define shared_worklist_buf_min_log_size ((unsigned) 10)
+#endif
 // Max size: 2 GB on 64-bit systems, 1 GB on 32-bit.
 #define shared_worklist_buf_max_log_size ((unsigned) 28)
 
-- 
2.43.0


From 776940a63941373dd14edc95aabeb40eaff3cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 14/35] fix: deque batch pushes larger than the buffer grow it

---
 src/shared-worklist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared-worklist.h b/src/shared-worklist.h
index 3cbfa66..54a6581 100644
--- a/src/shared-worklist.h
+++ b/src/shared-worklist.h
@@ -186,7 +186,7 @@ shared_worklist_push_many(struct shared_worklist *q, struct gc_ref *objv,
   int active = LOAD_RELAXED(&q->active);
 
   ssize_t size = b - t;
-  while (size > shared_worklist_buf_size(&q->bufs[active]) - count)
+  while (size + count > shared_worklist_buf_size(&q->bufs[active]))
     active = shared_worklist_grow(q, active, b, t); /* Full queue; grow. */
 
   for (size_t i = 0; i < count; i++)
-- 
2.43.0


From f7033e115a5c837316ae980315cfae2cdbd2b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 15/35] fix: objects enqueued by helpers in a roots-only trace
 are not stranded

A helper worker that traced roots in a roots-only trace (pinned roots) kept
the objects it enqueued in its local worklist, which nobody else can reach;
if the helper was not woken for the full trace, or lost the race with worker 0
to join it, those objects were never traced.
---
 src/parallel-tracer.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parallel-tracer.h b/src/parallel-tracer.h
index db8afae..552e1f2 100644
--- a/src/parallel-tracer.h
+++ b/src/parallel-tracer.h
@@ -335,6 +335,15 @@ trace_with_data(struct gc_tracer *tracer,
     if (worker->id == 0) {
       for (size_t i = 1; i < tracer->worker_count; i++)
         pthread_mutex_lock(&tracer->workers[i].lock);
+    } else {
+      // Nothing ensures that this worker wakes up for the next trace.  Move the
+      // objects it enqueued to where the other workers can get at them.
+      while (!local_worklist_empty(&worker->local)) {
+        struct gc_ref *objv;
+        size_t count = local_worklist_pop_many(&worker->local, &objv,
+                                               LOCAL_WORKLIST_SIZE);
+        shared_worklist_push_many(&worker->shared, objv, count);
+      }
     }
   } else {
     LOG("tracer #%zu: tracing objects\n", worker->id);
-- 
2.43.0


From 3b8da96479916e62e85c6097b07ce33dbb349eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 16/35] fix: chained and null event listeners

The chain passed heap data where the per-mutator data belongs, forwarded
mutator_cause_gc as restarting_mutators, and did not compile; the null
listener's mutator_added returned garbage.
---
 api/gc-event-listener-chain.h | 24 +++++++++++++-----------
 api/gc-null-event-listener.h  |  4 +++-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/api/gc-event-listener-chain.h b/api/gc-event-listener-chain.h
index 27b56d5..5559757 100644
--- a/api/gc-event-listener-chain.h
+++ b/api/gc-event-listener-chain.h
@@ -3,6 +3,8 @@
 
 #include "gc-event-listener.h"
 
+#include <stdlib.h>
+
 struct gc_event_listener_chain {
   struct gc_event_listener head; void *head_data;
   struct gc_event_listener tail; void *tail_data;
@@ -80,28 +82,28 @@ static inline void* gc_event_listener_chain_mutator_added(void *data) {
 
 static inline void gc_event_listener_chain_mutator_cause_gc(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.restarting_mutators(mutator->head_data);
-  mutator->chain->tail.restarting_mutators(mutator->tail_data);
+  mutator->chain->head.mutator_cause_gc(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_cause_gc(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopping(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopping(mutator->head_data);
-  mutator->chain->tail.mutator_stopping(mutator->tail_data);
+  mutator->chain->head.mutator_stopping(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopping(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_stopped(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_stopped(mutator->head_data);
-  mutator->chain->tail.mutator_stopped(mutator->tail_data);
+  mutator->chain->head.mutator_stopped(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_stopped(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_restarted(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_restarted(mutator->head_data);
-  mutator->chain->tail.mutator_restarted(mutator->tail_data);
+  mutator->chain->head.mutator_restarted(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_restarted(mutator->tail_mutator_data);
 }
 static inline void gc_event_listener_chain_mutator_removed(void *mutator_data) {
   struct gc_event_listener_chain_mutator *mutator = mutator_data;
-  mutator->chain->head.mutator_removed(mutator->head_data);
-  mutator->chain->tail.mutator_removed(mutator->tail_data);
+  mutator->chain->head.mutator_removed(mutator->head_mutator_data);
+  mutator->chain->tail.mutator_removed(mutator->tail_mutator_data);
   free(mutator);
 }
 
@@ -140,6 +142,6 @@ static inline void gc_event_listener_chain_live_data_size(void *data, size_t siz
   })
 
 #define GC_EVENT_LISTENER_CHAIN_DATA(head, head_data, tail, tail_data)  \
-  ((struct gc_event_listener_chain_data){head, head_data, tail, tail_data})
+  ((struct gc_event_listener_chain){head, head_data, tail, tail_data})
 
 #endif // GC_EVENT_LISTENER_CHAIN_H
diff --git a/api/gc-null-event-listener.h b/api/gc-null-event-listener.h
index 9c032ff..adf58f5 100644
--- a/api/gc-null-event-listener.h
+++ b/api/gc-null-event-listener.h
@@ -3,6 +3,8 @@
 
 #include "gc-event-listener.h"
 
+#include <stddef.h>
+
 static inline void gc_null_event_listener_init(void *data, size_t size) {}
 static inline void gc_null_event_listener_requesting_stop(void *data) {}
 static inline void gc_null_event_listener_waiting_for_stop(void *data) {}
@@ -15,7 +17,7 @@ static inline void gc_null_event_listener_ephemerons_traced(void *data) {}
 static inline void gc_null_event_listener_finalizers_traced(void *data) {}
 static inline void gc_null_event_listener_restarting_mutators(void *data) {}
 
-static inline void* gc_null_event_listener_mutator_added(void *data) {}
+static inline void* gc_null_event_listener_mutator_added(void *data) { return NULL; }
 static inline void gc_null_event_listener_mutator_cause_gc(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopping(void *mutator_data) {}
 static inline void gc_null_event_listener_mutator_stopped(void *mutator_data) {}
-- 
2.43.0


From 3bb7beec93895b5ccd0f5215d4ef4325747d254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 17/35] fix: semi: report mutator_cause_gc

---
 src/semi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/semi.c b/src/semi.c
index a4ee85f..9163f7d 100644
--- a/src/semi.c
+++ b/src/semi.c
@@ -65,8 +65,8 @@ struct gc_mutator {
     GC_TRACEPOINT(event, ##__VA_ARGS__);                                \
   } while (0)
 #define MUTATOR_EVENT(mut, event, ...) do {                             \
-    (mut)->heap->event_listener.event((mut)->event_listener_data,       \
-                                      ##__VA_ARGS__);                   \
+    (mut)->heap.event_listener.event((mut)->event_listener_data,        \
+                                     ##__VA_ARGS__);                    \
     GC_TRACEPOINT(event, ##__VA_ARGS__);                                \
   } while (0)
 
@@ -391,6 +391,7 @@ static void collect(struct gc_mutator *mut, size_t for_alloc) {
   int is_compacting = 1;
   uint64_t start_ns = gc_platform_monotonic_nanoseconds();
 
+  MUTATOR_EVENT(mut, mutator_cause_gc);
   HEAP_EVENT(heap, requesting_stop);
   HEAP_EVENT(heap, waiting_for_stop);
   HEAP_EVENT(heap, mutators_stopped);
-- 
2.43.0


From 030a70481623ae076ba4ed28e9625c1dcc9f9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 18/35] fix: histogram percentiles round the rank up

The median of one pause was always reported as less than a microsecond, and
that of an odd number of pauses as the value below the middle one.
---
 api/gc-histogram.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/gc-histogram.h b/api/gc-histogram.h
index 0761a63..6d350ec 100644
--- a/api/gc-histogram.h
+++ b/api/gc-histogram.h
@@ -67,7 +67,9 @@ static inline uint64_t gc_histogram_bucket_min_val(uint64_t precision,
     return sum;                                                         \
   }                                                                     \
   static inline uint64_t name##_percentile(struct name *h, double p) {  \
-    uint64_t n = name##_count(h) * p;                                   \
+    double rank = name##_count(h) * p;                                  \
+    uint64_t n = rank;                                                  \
+    if (n < rank) n++;                                                  \
     uint64_t sum = 0;                                                   \
     for (size_t bucket = 0; bucket + 1 < name##_size(); bucket++) {     \
       sum += h->buckets[bucket];                                        \
-- 
2.43.0


From cbec3ca5cc1ec85c340c93b8aeca163f92735552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 19/35] fix: option values out of range wrapped around instead
 of being rejected

---
 src/gc-options.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index 31de027..fe2dd5e 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -1,5 +1,6 @@
 #include <limits.h>
 #include <malloc.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -90,25 +91,27 @@ static int parse_size(const char *arg, size_t *val) {
   long i = strtol(arg, &end, 0);
   if (i < 0 || i == LONG_MAX) return 0;
   if (end == arg) return 0;
+  size_t unit = 1;
   char delim = *end;
   if (delim == 'k' || delim == 'K')
-    ++end, i *= 1024L;
+    ++end, unit = 1024L;
   else if (delim == 'm' || delim == 'M')
-    ++end, i *= 1024L * 1024L;
+    ++end, unit = 1024L * 1024L;
   else if (delim == 'g' || delim == 'G')
-    ++end, i *= 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L;
   else if (delim == 't' || delim == 'T')
-    ++end, i *= 1024L * 1024L * 1024L * 1024L;
+    ++end, unit = 1024L * 1024L * 1024L * 1024L;
 
   if (*end != '\0') return 0;
-  *val = i;
+  if ((size_t)i > SIZE_MAX / unit) return 0;
+  *val = i * unit;
   return 1;
 }
 
 static int parse_int(const char *arg, int *val) {
   char *end;
   long i = strtol(arg, &end, 0);
-  if (i == LONG_MIN || i == LONG_MAX || end == arg || *end)
+  if (i < INT_MIN || i > INT_MAX || end == arg || *end)
     return 0;
   *val = i;
   return 1;
-- 
2.43.0


From 1708221c132f5114fc00824cf64dc0e908ae8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 20/35] fix: accept upper-case size suffixes in option lists

---
 src/gc-options.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gc-options.c b/src/gc-options.c
index fe2dd5e..0554fed 100644
--- a/src/gc-options.c
+++ b/src/gc-options.c
@@ -157,11 +157,12 @@ int gc_common_options_parse_and_set(struct gc_common_options *options,
 }
 
 static int is_lower(char c) { return 'a' <= c && c <= 'z'; }
+static int is_upper(char c) { return 'A' <= c && c <= 'Z'; }
 static int is_digit(char c) { return '0' <= c && c <= '9'; }
 static int is_option(char c) { return is_lower(c) || c == '-'; }
 static int is_option_end(char c) { return c == '='; }
 static int is_value(char c) {
-  return is_lower(c) || is_digit(c) || c == '-' || c == '+' || c == '.';
+  return is_lower(c) || is_upper(c) || is_digit(c) || c == '-' || c == '+' || c == '.';
 }
 static int is_value_end(char c) { return c == '\0' || c == ','; }
 static char* read_token(char *p, int (*is_tok)(char c), int (*is_end)(char c),
-- 
2.43.0


From d4e2d6a8c4d54dacc05584b4aaea653a487ccaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 21/35] fix: nofl: count evacuation targets given back when
 shrinking

---
 src/nofl-space.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 7d5c9ca..97ac926 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1826,6 +1826,7 @@ nofl_space_shrink(struct nofl_space *space, size_t bytes) {
         nofl_block_list_pop(&space->evacuation_targets);
       GC_ASSERT(!nofl_block_is_null(block));
       nofl_push_unavailable_block(space, block, &lock);
+      avail--;
       pending = atomic_fetch_sub(&space->pending_unavailable_bytes,
                                  NOFL_BLOCK_SIZE);
       pending -= NOFL_BLOCK_SIZE;
-- 
2.43.0


From 7476033d633cbfa2de4bf14c729a9de7f56d67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 22/35] fix: mmc: account for slab metadata when resizing the
 heap

---
 src/mmc.c        | 6 ++++--
 src/nofl-space.h | 7 +++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index f618909..7da5e4b 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -477,9 +477,11 @@ resize_heap(struct gc_heap *heap, size_t new_size) {
   DEBUG("------ old heap size: %zu bytes\n", heap->size);
   DEBUG("------ new heap size: %zu bytes\n", new_size);
   if (new_size < heap->size)
-    nofl_space_shrink(heap_nofl_space(heap), heap->size - new_size);
+    nofl_space_shrink(heap_nofl_space(heap),
+                      nofl_payload_size(heap->size - new_size));
   else
-    nofl_space_expand(heap_nofl_space(heap), new_size - heap->size);
+    nofl_space_expand(heap_nofl_space(heap),
+                      nofl_payload_size(new_size - heap->size));
 
   heap->size = new_size;
   HEAP_EVENT(heap, heap_resized, new_size);
diff --git a/src/nofl-space.h b/src/nofl-space.h
index 97ac926..4bee4eb 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1796,6 +1796,13 @@ nofl_space_add_slabs(struct nofl_space *space, struct nofl_slab *slabs,
     space->slabs[space->nslabs++] = slabs++;
 }
 
+// Part of each slab is taken up by metadata.  Of a heap of a given size, only
+// this many bytes are in blocks that can hold objects.
+static size_t
+nofl_payload_size(size_t bytes) {
+  return bytes / NOFL_BLOCKS_PER_SLAB * NOFL_NONMETA_BLOCKS_PER_SLAB;
+}
+
 static int
 nofl_space_shrink(struct nofl_space *space, size_t bytes) {
   ssize_t pending = nofl_space_request_release_memory(space, bytes);
-- 
2.43.0


From 4810a691adb8b04d6f52cd82e7d989a88d11d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 23/35] fix: mmc, pcc: grow the heap for large objects that
 don't fit

---
 src/mmc.c | 15 +++++++++++----
 src/pcc.c | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 7da5e4b..74c643a 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -37,6 +37,7 @@ struct gc_heap {
   struct gc_extern_space *extern_space;
   struct gc_field_set remembered_set;
   size_t large_object_pages;
+  size_t large_object_bytes_requested; // atomically
   pthread_mutex_t lock;
   pthread_cond_t collector_cond;
   pthread_cond_t mutator_cond;
@@ -830,8 +831,10 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   size_t live_bytes_estimate =
     heap_estimate_live_data_after_gc(heap, live_bytes, yield);
   DEBUG("--- total live bytes estimate: %zu\n", live_bytes_estimate);
-  gc_heap_sizer_on_gc(heap->sizer, heap->size, live_bytes_estimate, pause_ns,
-                      resize_heap);
+  gc_heap_sizer_on_gc(heap->sizer, heap->size,
+                      live_bytes_estimate
+                      + atomic_load(&heap->large_object_bytes_requested),
+                      pause_ns, resize_heap);
   heap->size_at_last_gc = heap->size;
   HEAP_EVENT(heap, restarting_mutators);
   allow_mutators_to_continue(heap);
@@ -914,11 +917,15 @@ allocate_large(struct gc_mutator *mut, size_t size,
 
   size_t npages = large_object_space_npages(lospace, size);
 
-  nofl_space_request_release_memory(nofl_space,
-                                    npages << lospace->page_size_log2);
+  size_t bytes = npages << lospace->page_size_log2;
+
+  // If the heap is resizable, have the sizer make room for this object.
+  atomic_fetch_add(&heap->large_object_bytes_requested, bytes);
+  nofl_space_request_release_memory(nofl_space, bytes);
 
   while (!nofl_space_shrink(nofl_space, 0))
     trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
+  atomic_fetch_sub(&heap->large_object_bytes_requested, bytes);
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(lospace, npages, kind);
diff --git a/src/pcc.c b/src/pcc.c
index 1192d88..54a080a 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -41,6 +41,7 @@ struct gc_heap {
   struct gc_field_set remembered_set;
 #endif
   size_t large_object_pages;
+  size_t large_object_bytes_requested; // atomically
   pthread_mutex_t lock;
   pthread_cond_t collector_cond;
   pthread_cond_t mutator_cond;
@@ -925,8 +926,10 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
                       large_object_space_size_at_last_collection(lospace));
   uint64_t pause_ns = gc_platform_monotonic_nanoseconds() - start_ns;
   HEAP_EVENT(heap, live_data_size, live_size);
-  gc_heap_sizer_on_gc(heap->sizer, heap->size, live_size, pause_ns,
-                      resize_heap);
+  gc_heap_sizer_on_gc(heap->sizer, heap->size,
+                      live_size
+                      + atomic_load(&heap->large_object_bytes_requested),
+                      pause_ns, resize_heap);
   {
     struct copy_space *space = heap_resizable_space(heap);
     if (!copy_space_page_out_blocks_until_memory_released(space)
@@ -965,10 +968,14 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 
   size_t npages = large_object_space_npages(space, size);
 
-  copy_space_request_release_memory(heap_resizable_space(heap),
-                                    npages << space->page_size_log2);
+  size_t bytes = npages << space->page_size_log2;
+
+  // If the heap is resizable, have the sizer make room for this object.
+  atomic_fetch_add(&heap->large_object_bytes_requested, bytes);
+  copy_space_request_release_memory(heap_resizable_space(heap), bytes);
   while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap)))
     trigger_collection(mut, GC_COLLECTION_COMPACTING);
+  atomic_fetch_sub(&heap->large_object_bytes_requested, bytes);
   atomic_fetch_add(&heap->large_object_pages, npages);
 
   void *ret = large_object_space_alloc(space, npages, GC_TRACE_PRECISELY);
-- 
2.43.0


From d21219eb78e4f83ae7375c44722bf2916b73f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 24/35] fix: adaptive heap sizer initialized the background
 thread's lock instead of its own

---
 src/adaptive-heap-sizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptive-heap-sizer.h b/src/adaptive-heap-sizer.h
index 225b44b..dc036ea 100644
--- a/src/adaptive-heap-sizer.h
+++ b/src/adaptive-heap-sizer.h
@@ -157,7 +157,7 @@ gc_make_adaptive_heap_sizer(struct gc_heap *heap, double expansiveness,
   sizer->last_bytes_allocated = get_allocation_counter(heap);
   sizer->last_heartbeat = gc_platform_monotonic_nanoseconds();
 #if GC_PARALLEL
-  pthread_mutex_init(&thread->lock, NULL);
+  pthread_mutex_init(&sizer->lock, NULL);
   sizer->background_task_id =
     gc_background_thread_add_task(thread, GC_BACKGROUND_TASK_MIDDLE,
                                   gc_adaptive_heap_sizer_background_task,
-- 
2.43.0


From 14e87e254978b75cb8d198f1fc860186c847a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 25/35] fix: pcc: account for slab metadata when resizing the
 heap

---
 src/copy-space.h | 9 +++++++++
 src/pcc.c        | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 1b05066..89e513b 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -872,6 +872,15 @@ copy_space_first_payload_block(struct copy_space *space) {
   return copy_space_field_logging_blocks(space);
 }
 
+// Part of each slab is taken up by metadata.  Of a space of a given size, only
+// this many bytes are in blocks that can hold objects.
+static size_t
+copy_space_payload_size(struct copy_space *space, size_t bytes) {
+  return bytes / COPY_SPACE_BLOCKS_PER_SLAB
+    * (COPY_SPACE_NONHEADER_BLOCKS_PER_SLAB
+       - copy_space_first_payload_block(space));
+}
+
 static void
 copy_space_expand(struct copy_space *space, size_t bytes) {
   GC_ASSERT(!copy_space_fixed_size(space));
diff --git a/src/pcc.c b/src/pcc.c
index 54a080a..a6643bb 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -689,10 +689,13 @@ static void resize_heap(struct gc_heap *heap, size_t new_size) {
   DEBUG("------ resizing heap\n");
   DEBUG("------ old heap size: %zu bytes\n", heap->size);
   DEBUG("------ new heap size: %zu bytes\n", new_size);
+  struct copy_space *space = heap_resizable_space(heap);
   if (new_size < heap->size)
-    copy_space_shrink(heap_resizable_space(heap), heap->size - new_size);
+    copy_space_shrink(space,
+                      copy_space_payload_size(space, heap->size - new_size));
   else
-    copy_space_expand(heap_resizable_space(heap), new_size - heap->size);
+    copy_space_expand(space,
+                      copy_space_payload_size(space, new_size - heap->size));
 
   heap->size = new_size;
   HEAP_EVENT(heap, heap_resized, new_size);
-- 
2.43.0


From cc7d5b4fed6dff3c6830b24d2d629aa1d73436f3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 26/35] fix: mmc: do not declare out of memory while compaction
 can still release blocks

---
 src/mmc.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 74c643a..8b9469a 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -43,6 +43,7 @@ struct gc_heap {
   pthread_cond_t mutator_cond;
   size_t size;
   size_t total_allocated_bytes_at_last_gc;
+  ssize_t pending_unavailable_bytes_at_last_gc;
   size_t size_at_last_gc;
   int collecting;
   int check_pending_ephemerons;
@@ -520,7 +521,9 @@ heap_estimate_live_data_after_gc(struct gc_heap *heap,
 }
 
 static void
-detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
+detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
+                     enum gc_collection_kind requested_kind,
+                     ssize_t pending_at_last_gc) {
   if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
     return;
 
@@ -530,6 +533,15 @@ detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc) {
   if (heap->gc_kind == GC_COLLECTION_MINOR)
     return;
 
+  // A large allocation needs whole blocks to be released.  If the last
+  // collection did not evacuate, or if evacuation is making progress, there may
+  // yet be enough of them.
+  if (requested_kind == GC_COLLECTION_COMPACTING &&
+      !gc_has_conservative_intraheap_edges() &&
+      (heap->gc_kind != GC_COLLECTION_COMPACTING ||
+       heap->pending_unavailable_bytes_at_last_gc < pending_at_last_gc))
+    return;
+
   // No allocation since last gc: out of memory.
   fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
   GC_CRASH();
@@ -788,8 +800,13 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   nofl_space_add_to_allocation_counter(nofl_space, &allocation_counter);
   large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
   heap->total_allocated_bytes_at_last_gc += allocation_counter;
+  ssize_t pending_at_last_gc = heap->pending_unavailable_bytes_at_last_gc;
+  heap->pending_unavailable_bytes_at_last_gc =
+    atomic_load_explicit(&nofl_space->pending_unavailable_bytes,
+                         memory_order_acquire);
   if (!requested_by_user)
-    detect_out_of_memory(heap, allocation_counter);
+    detect_out_of_memory(heap, allocation_counter, requested_kind,
+                         pending_at_last_gc);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
-- 
2.43.0


From ea6552ed1359d65bbcfbf1625811f577eb67ad39 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 27/35] fix: nofl: debug verification must not ask the embedder
 for the size of untagged objects

---
 src/nofl-space.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 4bee4eb..c1b16a9 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1247,6 +1247,20 @@ nofl_size_to_granules(size_t size) {
   return (size + NOFL_GRANULE_SIZE - 1) >> NOFL_GRANULE_SIZE_LOG_2;
 }
 
+// The size of an object, as measured by the embedder if possible.  An object
+// without fields may be untagged, in which case the only measure we have is the
+// extrinsic one.
+static inline size_t
+nofl_measure_object_granules(struct gc_ref obj, uint8_t *meta) {
+  uint8_t mask =
+    NOFL_METADATA_BYTE_TRACE_KIND_MASK & ~NOFL_METADATA_BYTE_PINNED;
+  if ((*meta & mask) == NOFL_METADATA_BYTE_TRACE_NONE)
+    return nofl_space_live_object_granules(meta);
+  size_t bytes;
+  gc_trace_object(obj, NULL, NULL, NULL, &bytes);
+  return nofl_size_to_granules(bytes);
+}
+
 static void
 nofl_space_verify_sweepable_blocks(struct nofl_space *space,
                                    struct nofl_block_list *list)
@@ -1266,9 +1280,7 @@ nofl_space_verify_sweepable_blocks(struct nofl_space *space,
     while (addr < limit) {
       if (nofl_metadata_byte_has_mark(meta[0], space->current_mark)) {
         struct gc_ref obj = gc_ref(addr);
-        size_t obj_bytes;
-        gc_trace_object(obj, NULL, NULL, NULL, &obj_bytes);
-        size_t granules = nofl_size_to_granules(obj_bytes);
+        size_t granules = nofl_measure_object_granules(obj, meta);
         GC_ASSERT(granules);
         for (size_t granule = 0; granule < granules - 1; granule++)
           GC_ASSERT(!(meta[granule] & NOFL_METADATA_BYTE_END));
@@ -1303,9 +1315,7 @@ nofl_space_verify_swept_blocks(struct nofl_space *space,
       if (meta[0]) {
         GC_ASSERT(nofl_metadata_byte_has_mark(meta[0], space->current_mark));
         struct gc_ref obj = gc_ref(addr);
-        size_t obj_bytes;
-        gc_trace_object(obj, NULL, NULL, NULL, &obj_bytes);
-        size_t granules = nofl_size_to_granules(obj_bytes);
+        size_t granules = nofl_measure_object_granules(obj, meta);
         GC_ASSERT(granules);
         for (size_t granule = 0; granule < granules - 1; granule++)
           GC_ASSERT(!(meta[granule] & NOFL_METADATA_BYTE_END));
-- 
2.43.0


From 26c0726bba0b43c2c1698a3a4cfa01f6ba117512 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 28/35] fix: terminate when the system refuses to expand the
 heap, instead of using a null slab

---
 src/copy-space.h | 4 ++++
 src/nofl-space.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/copy-space.h b/src/copy-space.h
index 89e513b..e39a993 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -890,6 +890,10 @@ copy_space_expand(struct copy_space *space, size_t bytes) {
   size_t nslabs = reserved / COPY_SPACE_SLAB_SIZE;
   struct copy_space_slab *slabs =
     copy_space_allocate_slabs(nslabs, space->flags);
+  if (!slabs) {
+    fprintf(stderr, "failed to expand heap by %zu bytes\n", reserved);
+    GC_CRASH();
+  }
   copy_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = copy_space_lock(space);
diff --git a/src/nofl-space.h b/src/nofl-space.h
index c1b16a9..3358c2b 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1866,6 +1866,10 @@ nofl_space_expand(struct nofl_space *space, size_t bytes) {
   size_t reserved = align_up(to_acquire, NOFL_SLAB_SIZE);
   size_t nslabs = reserved / NOFL_SLAB_SIZE;
   struct nofl_slab *slabs = nofl_allocate_slabs(nslabs);
+  if (!slabs) {
+    fprintf(stderr, "failed to expand heap by %zu bytes\n", reserved);
+    GC_CRASH();
+  }
   nofl_space_add_slabs(space, slabs, nslabs);
 
   struct gc_lock lock = nofl_space_lock(space);
-- 
2.43.0


From 0e8f4cd661cb0a6ab34c096737997925f5ea7843 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 29/35] fix: nofl: age all blocks in the page-out queue, so
 that they are paged out at all

---
 src/nofl-space.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nofl-space.h b/src/nofl-space.h
index 3358c2b..d6a861b 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1897,11 +1897,13 @@ nofl_space_advance_page_out_queue(void *data) {
   struct nofl_space *space = data;
   struct gc_lock lock = nofl_space_lock(space);
   for (int age = NOFL_PAGE_OUT_QUEUE_SIZE - 3; age >= 0; age--) {
-    struct nofl_block_ref block =
-      nofl_block_stack_pop(&space->paged_out[age], &lock);
-    if (nofl_block_is_null(block))
-      break;
-    nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    while (1) {
+      struct nofl_block_ref block =
+        nofl_block_stack_pop(&space->paged_out[age], &lock);
+      if (nofl_block_is_null(block))
+        break;
+      nofl_block_stack_push(&space->paged_out[age+1], block, &lock);
+    }
   }
   gc_lock_release(&lock);
 }
-- 
2.43.0


From cbedc3c811af0a0b145146167cc79bba022bac8a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 30/35] fix: a block whose memory the system refuses to discard
 is not zeroed

---
 src/copy-space.h | 10 ++++++----
 src/nofl-space.h |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index e39a993..6e9085b 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -936,10 +936,12 @@ copy_space_page_out_blocks(void *data) {
     struct copy_space_block *block =
       copy_space_block_stack_pop(&space->paged_out[age], &lock);
     if (!block) break;
-    block->in_core = 0;
-    block->all_zeroes[0] = block->all_zeroes[1] = 1;
-    gc_platform_discard_memory(copy_space_block_payload(block),
-                               COPY_SPACE_BLOCK_SIZE);
+    // If the system refuses, the block keeps its contents.
+    if (gc_platform_discard_memory(copy_space_block_payload(block),
+                                   COPY_SPACE_BLOCK_SIZE)) {
+      block->in_core = 0;
+      block->all_zeroes[0] = block->all_zeroes[1] = 1;
+    }
     copy_space_clear_field_logged_bits_for_block(space, block);
     copy_space_block_stack_push(&space->paged_out[age + 1], block, &lock);
   }
diff --git a/src/nofl-space.h b/src/nofl-space.h
index d6a861b..3f2028b 100644
--- a/src/nofl-space.h
+++ b/src/nofl-space.h
@@ -1920,8 +1920,9 @@ nofl_space_page_out_blocks(void *data) {
       nofl_block_stack_pop(&space->paged_out[age], &lock);
     if (nofl_block_is_null(block))
       break;
-    nofl_block_set_flag(block, NOFL_BLOCK_ZERO | NOFL_BLOCK_PAGED_OUT);
-    gc_platform_discard_memory((void*)block.addr, NOFL_BLOCK_SIZE);
+    // If the system refuses, the block keeps its contents.
+    if (gc_platform_discard_memory((void*)block.addr, NOFL_BLOCK_SIZE))
+      nofl_block_set_flag(block, NOFL_BLOCK_ZERO | NOFL_BLOCK_PAGED_OUT);
     nofl_block_stack_push(&space->paged_out[age + 1], block, &lock);
   }
   gc_lock_release(&lock);
-- 
2.43.0


From 5f0514ec8ce694f8e29375d72b7c6921baa65baa Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 31/35] fix: pcc: terminate instead of collecting forever when
 live data fills the heap

---
 src/copy-space.h |  5 +++++
 src/pcc.c        | 58 ++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/copy-space.h b/src/copy-space.h
index 6e9085b..51f3b1c 100644
--- a/src/copy-space.h
+++ b/src/copy-space.h
@@ -597,6 +597,11 @@ copy_space_add_to_allocation_counter(struct copy_space *space,
   *counter += space->allocated_bytes - space->allocated_bytes_at_last_gc;
 }
 
+static inline size_t
+copy_space_fragmentation_since_last_gc(struct copy_space *space) {
+  return space->fragmentation - space->fragmentation_at_last_gc;
+}
+
 static void
 copy_space_gc_during_evacuation(void *data) {
   // If space is really tight and reordering of objects during
diff --git a/src/pcc.c b/src/pcc.c
index a6643bb..1c42429 100644
--- a/src/pcc.c
+++ b/src/pcc.c
@@ -47,6 +47,8 @@ struct gc_heap {
   pthread_cond_t mutator_cond;
   size_t size;
   size_t total_allocated_bytes_at_last_gc;
+  int last_gc_requested_by_user;
+  enum gc_collection_kind last_gc_kind;
   int collecting;
 #if GC_GENERATIONAL
   int is_minor_collection;
@@ -841,6 +843,29 @@ determine_collection_kind(struct gc_heap *heap,
   return GC_COLLECTION_COMPACTING;
 }
 
+// If the mutator could not allocate anything after a collection that it needed
+// in order to allocate, then another collection of the same kind won't help.
+static enum gc_collection_kind
+detect_out_of_memory(struct gc_heap *heap, uint64_t allocation_since_last_gc,
+                     enum gc_collection_kind requested_kind) {
+  // The ends of blocks that were too small for an object count as allocated.
+  struct copy_space *space = heap_allocation_space(heap);
+  if (allocation_since_last_gc > copy_space_fragmentation_since_last_gc(space))
+    return requested_kind;
+
+  if (heap->count == 0 || heap->last_gc_requested_by_user)
+    return requested_kind;
+
+  if (heap->last_gc_kind == GC_COLLECTION_MINOR)
+    return GC_COLLECTION_COMPACTING;
+
+  if (heap->sizer.policy != GC_HEAP_SIZE_FIXED)
+    return requested_kind;
+
+  fprintf(stderr, "ran out of space, heap size %zu\n", heap->size);
+  GC_CRASH();
+}
+
 static void
 copy_spaces_start_gc(struct gc_heap *heap, int is_minor_gc) {
   if (GC_GENERATIONAL) {
@@ -875,9 +900,11 @@ copy_spaces_allocated_bytes(struct gc_heap *heap)
 
 static enum gc_collection_kind
 collect(struct gc_mutator *mut,
-        enum gc_collection_kind requested_kind) GC_NEVER_INLINE;
+        enum gc_collection_kind requested_kind,
+        int requested_by_user) GC_NEVER_INLINE;
 static enum gc_collection_kind
-collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
+collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
+        int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   struct large_object_space *lospace = heap_large_object_space(heap);
   struct gc_extern_space *exspace = heap_extern_space(heap);
@@ -889,18 +916,24 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
   HEAP_EVENT(heap, waiting_for_stop);
   wait_for_mutators_to_stop(heap);
   HEAP_EVENT(heap, mutators_stopped);
+  uint64_t allocation_counter = 0;
+  copy_space_add_to_allocation_counter(heap_allocation_space(heap),
+                                       &allocation_counter);
+  large_object_space_add_to_allocation_counter(lospace, &allocation_counter);
+  heap->total_allocated_bytes_at_last_gc += allocation_counter;
+  if (!requested_by_user)
+    requested_kind = detect_out_of_memory(heap, allocation_counter,
+                                          requested_kind);
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
+  heap->last_gc_kind = gc_kind;
+  heap->last_gc_requested_by_user = requested_by_user;
   int is_minor_gc =
 #if GC_GENERATIONAL
     heap->is_minor_collection =
 #endif
     GC_GENERATIONAL ? gc_kind == GC_COLLECTION_MINOR : 0;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
-  uint64_t *counter_loc = &heap->total_allocated_bytes_at_last_gc;
-  copy_space_add_to_allocation_counter(heap_allocation_space(heap),
-                                       counter_loc);
-  large_object_space_add_to_allocation_counter(lospace, counter_loc);
   copy_spaces_start_gc(heap, is_minor_gc);
   large_object_space_start_gc(lospace, is_minor_gc);
   gc_extern_space_start_gc(exspace, is_minor_gc);
@@ -947,7 +980,8 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind) {
 }
 
 static void trigger_collection(struct gc_mutator *mut,
-                               enum gc_collection_kind requested_kind) {
+                               enum gc_collection_kind requested_kind,
+                               int requested_by_user) {
   struct gc_heap *heap = mutator_heap(mut);
   copy_space_allocator_finish(&mut->allocator, heap_allocation_space(heap));
   if (GC_GENERATIONAL)
@@ -957,12 +991,12 @@ static void trigger_collection(struct gc_mutator *mut,
   while (mutators_are_stopping(heap))
     prev_kind = pause_mutator_for_collection(heap, mut);
   if (prev_kind < (int)requested_kind)
-    collect(mut, requested_kind);
+    collect(mut, requested_kind, requested_by_user);
   heap_unlock(heap);
 }
 
 void gc_collect(struct gc_mutator *mut, enum gc_collection_kind kind) {
-  trigger_collection(mut, kind);
+  trigger_collection(mut, kind, 1);
 }
 
 static void* allocate_large(struct gc_mutator *mut, size_t size) {
@@ -977,7 +1011,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
   atomic_fetch_add(&heap->large_object_bytes_requested, bytes);
   copy_space_request_release_memory(heap_resizable_space(heap), bytes);
   while (!copy_space_page_out_blocks_until_memory_released(heap_resizable_space(heap)))
-    trigger_collection(mut, GC_COLLECTION_COMPACTING);
+    trigger_collection(mut, GC_COLLECTION_COMPACTING, 0);
   atomic_fetch_sub(&heap->large_object_bytes_requested, bytes);
   atomic_fetch_add(&heap->large_object_pages, npages);
 
@@ -992,7 +1026,7 @@ static void* allocate_large(struct gc_mutator *mut, size_t size) {
 }
 
 static void get_more_empty_blocks_for_mutator(void *mut) {
-  trigger_collection(mut, GC_COLLECTION_MINOR);
+  trigger_collection(mut, GC_COLLECTION_MINOR, 0);
 }
 
 void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
@@ -1014,7 +1048,7 @@ void* gc_allocate_slow(struct gc_mutator *mut, size_t size,
                               heap_allocation_space(mutator_heap(mut)),
                               size);
     if (gc_ref_is_null(ret))
-      trigger_collection(mut, GC_COLLECTION_MINOR);
+      trigger_collection(mut, GC_COLLECTION_MINOR, 0);
     else
       break;
   }
-- 
2.43.0


From 9f53e20fabce4b95857585c3929eb96cad5bc724 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 32/35] fix: mmc: include large objects in the live data size

---
 src/mmc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mmc.c b/src/mmc.c
index 8b9469a..1120702 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -811,14 +811,15 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
   HEAP_EVENT(heap, prepare_gc, gc_kind);
+  // Starting collection resets the large object space's live size.
+  double yield = heap_last_gc_yield(heap);
+  double fragmentation = heap_fragmentation(heap);
+  size_t live_bytes = heap->size * (1.0 - yield);
   nofl_space_prepare_gc(nofl_space, gc_kind);
   large_object_space_start_gc(lospace, is_minor);
   gc_extern_space_start_gc(exspace, is_minor);
   resolve_ephemerons_lazily(heap);
   gc_tracer_prepare(&heap->tracer);
-  double yield = heap_last_gc_yield(heap);
-  double fragmentation = heap_fragmentation(heap);
-  size_t live_bytes = heap->size * (1.0 - yield);
   HEAP_EVENT(heap, live_data_size, live_bytes);
   DEBUG("last gc yield: %f; fragmentation: %f\n", yield, fragmentation);
   // Eagerly trace pinned roots if we are going to relocate objects.
-- 
2.43.0


From 5636d5f81a0407c953863a9f89f122579f3f7493 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 33/35] fix: generational mmc: do a major collection if a minor
 one made no room

---
 src/mmc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index 1120702..e165567 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -807,6 +807,12 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
   if (!requested_by_user)
     detect_out_of_memory(heap, allocation_counter, requested_kind,
                          pending_at_last_gc);
+  // If there was no room to allocate after a minor collection, then another
+  // minor collection won't help.
+  if (!requested_by_user && requested_kind == GC_COLLECTION_ANY
+      && heap->gc_kind == GC_COLLECTION_MINOR
+      && allocation_counter <= nofl_space_fragmentation(nofl_space))
+    requested_kind = GC_COLLECTION_MAJOR;
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
-- 
2.43.0


From 54adc6c01991a6cbfc5fa589880bc954745c1f5b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 34/35] fix: mmc: do not declare out of memory on account of a
 collection the user asked for

---
 src/mmc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mmc.c b/src/mmc.c
index e165567..1d163ee 100644
--- a/src/mmc.c
+++ b/src/mmc.c
@@ -44,6 +44,7 @@ struct gc_heap {
   size_t size;
   size_t total_allocated_bytes_at_last_gc;
   ssize_t pending_unavailable_bytes_at_last_gc;
+  int last_gc_requested_by_user;
   size_t size_at_last_gc;
   int collecting;
   int check_pending_ephemerons;
@@ -533,6 +534,11 @@ detect_out_of_memory(struct gc_heap *heap, uintptr_t allocation_since_last_gc,
   if (heap->gc_kind == GC_COLLECTION_MINOR)
     return;
 
+  // If the mutator asked for the last collection, it may have dropped any
+  // amount of data since then without allocating.
+  if (heap->last_gc_requested_by_user)
+    return;
+
   // A large allocation needs whole blocks to be released.  If the last
   // collection did not evacuate, or if evacuation is making progress, there may
   // yet be enough of them.
@@ -813,6 +819,7 @@ collect(struct gc_mutator *mut, enum gc_collection_kind requested_kind,
       && heap->gc_kind == GC_COLLECTION_MINOR
       && allocation_counter <= nofl_space_fragmentation(nofl_space))
     requested_kind = GC_COLLECTION_MAJOR;
+  heap->last_gc_requested_by_user = requested_by_user;
   enum gc_collection_kind gc_kind =
     determine_collection_kind(heap, requested_kind);
   int is_minor = gc_kind == GC_COLLECTION_MINOR;
-- 
2.43.0


From 0690be3ca88f91484bb4138960c9a804d8854be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:35 +0000
Subject: [PATCH 35/35] fix: background thread: forget a removed task

gc_background_thread_remove_task moved the tasks behind the removed one
down but left the count, so that the last task ran twice a period (or, if
it was the removed one, went on running).
---
 src/background-thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/background-thread.h b/src/background-thread.h
index 7a141ce..e925976 100644
--- a/src/background-thread.h
+++ b/src/background-thread.h
@@ -137,6 +137,7 @@ gc_background_thread_remove_task(struct gc_background_thread *thread,
   size_t bytes_to_move =
     (thread->count - (remove + 1)) * sizeof(struct gc_background_task);
   memmove(&thread->tasks[remove], &thread->tasks[remove + 1], bytes_to_move);
+  thread->count--;
   pthread_mutex_unlock(&thread->lock);
 }
 
-- 
2.43.0

