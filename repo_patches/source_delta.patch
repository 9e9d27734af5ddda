From 8687cb81efbb92cabfa87bf6145232356fbafac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 01/23] fix: FC applies each request with the id of the thread
 that announced it

---
 libconcurrent/concurrent/fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fc.c b/libconcurrent/concurrent/fc.c
index 316331f..e3473b6 100644
--- a/libconcurrent/concurrent/fc.c
+++ b/libconcurrent/concurrent/fc.c
@@ -82,7 +82,7 @@ RetVal FCApplyOp(FCStruct *lock, FCThreadState *st_thread, RetVal (*sfunc)(void
     for (i = 0; i < FC_COMBINING_ROUNDS; i++) {
         for (cur = lock->head; cur != NULL; cur = cur->next) {
             if (cur->pending) {
-                cur->val = sfunc(state, cur->val, pid);
+                cur->val = sfunc(state, cur->val, (int)((FCRequest *)cur - lock->nodes));
                 synchNonTSOFence();
                 cur->pending = false;
                 cur->age = count;
-- 
2.43.0


From 1b8d09c25328bd5cbf87843c93418925078c4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 02/23] fix: pushing INT_MIN on a combining stack is no longer
 taken for a pop

---
 libconcurrent/concurrent/ccstack.c   | 2 +-
 libconcurrent/concurrent/dsmstack.c  | 2 +-
 libconcurrent/concurrent/fcstack.c   | 2 +-
 libconcurrent/concurrent/hstack.c    | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/concurrent/ccstack.c b/libconcurrent/concurrent/ccstack.c
index 03f49f1..abf9a8f 100644
--- a/libconcurrent/concurrent/ccstack.c
+++ b/libconcurrent/concurrent/ccstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void CCStackInit(CCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/dsmstack.c b/libconcurrent/concurrent/dsmstack.c
index e5fad18..231294e 100644
--- a/libconcurrent/concurrent/dsmstack.c
+++ b/libconcurrent/concurrent/dsmstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void DSMSStackInit(DSMStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index 9d58279..fc89053 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -4,7 +4,7 @@
 #include <pool.h>
 #include <queue-stack.h>
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCStackInit(FCStackStruct *stack_object_struct, uint32_t nthreads) {
diff --git a/libconcurrent/concurrent/hstack.c b/libconcurrent/concurrent/hstack.c
index 9a382da..ba9371b 100644
--- a/libconcurrent/concurrent/hstack.c
+++ b/libconcurrent/concurrent/hstack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void HStackInit(HStackStruct *stack_object_struct, uint32_t nthreads, uint32_t numa_nodes) {
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index e4193b4..08e06d6 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -3,7 +3,7 @@
 
 inline static RetVal serialPushPop(void *state, ArgVal arg, int pid);
 
-static const int POP_OP = INT_MIN;
+static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-- 
2.43.0


From 9b96ea5654b7aaf6a79c7cc47153ed56041c6144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 03/23] fix: FCStackPop returns EMPTY_STACK on an empty stack

---
 libconcurrent/concurrent/fcstack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/fcstack.c b/libconcurrent/concurrent/fcstack.c
index fc89053..382e181 100644
--- a/libconcurrent/concurrent/fcstack.c
+++ b/libconcurrent/concurrent/fcstack.c
@@ -26,7 +26,7 @@ inline static RetVal serialPushPop(void *state, ArgVal arg, int pid) {
         if (st->top != NULL) {
             st->top = st->top->next;
             return node->val;
-        } else return -1;
+        } else return EMPTY_STACK;
     } else {
         FCStackStruct *st = (FCStackStruct *)state;
         Node *node;
-- 
2.43.0


From 6f85708bbe76b4fb0e971bf410ad9801779e4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 04/23] fix: FCQueue stores and returns the enqueued values

---
 libconcurrent/concurrent/fcqueue.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/libconcurrent/concurrent/fcqueue.c b/libconcurrent/concurrent/fcqueue.c
index b5d0faf..b706024 100644
--- a/libconcurrent/concurrent/fcqueue.c
+++ b/libconcurrent/concurrent/fcqueue.c
@@ -7,13 +7,12 @@
 inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid);
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 
-static const int GUARD = INT_MIN;
 static __thread SynchPoolStruct pool_node CACHE_ALIGN;
 
 void FCQueueStructInit(FCQueueStruct *queue_object_struct, uint32_t nthreads) {
     FCStructInit(&queue_object_struct->enqueue_struct, nthreads);
     FCStructInit(&queue_object_struct->dequeue_struct, nthreads);
-    queue_object_struct->guard.val = GUARD;
+    queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
     queue_object_struct->last = &queue_object_struct->guard;
@@ -34,23 +33,21 @@ inline static RetVal serialEnqueue(void *state, ArgVal arg, int pid) {
     node->val = arg;
     st->last->next = node;
     st->last = node;
-    return -1;
+    return ENQUEUE_SUCCESS;
 }
 
 inline static RetVal serialDequeue(void *state, ArgVal arg, int pid) {
     FCQueueStruct *st = (FCQueueStruct *)state;
-    Node *node = (Node *)st->first;
-    
     if (st->first->next != NULL){
         st->first = st->first->next;
-        return node->val;
+        return st->first->val;
     } else {
-        return -1;
+        return EMPTY_QUEUE;
     }
 }
 
 void FCQueueApplyEnqueue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, ArgVal arg, int pid) {
-    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) pid, pid);
+    FCApplyOp(&object_struct->enqueue_struct, &lobject_struct->enqueue_thread_state, serialEnqueue, object_struct, (ArgVal) arg, pid);
 }
 
 RetVal FCQueueApplyDequeue(FCQueueStruct *object_struct, FCQueueThreadState *lobject_struct, int pid) {
-- 
2.43.0


From 00c855bda733d08c59b5885904c96e8d26e0fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 05/23] fix: SimQueue dequeue records no longer share one array
 of return values

---
 libconcurrent/includes/simqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/includes/simqueue.h b/libconcurrent/includes/simqueue.h
index b0deecc..5dc7cf3 100644
--- a/libconcurrent/includes/simqueue.h
+++ b/libconcurrent/includes/simqueue.h
@@ -41,12 +41,12 @@ typedef struct EnqState {
 typedef struct DeqState {
     /// @brief The applied vector of toggles.
     ToggleVector applied;
+    /// @brief A pointer to the array of return values.
+    RetVal *ret;
     /// @brief In case you want to copy this struct, start from here.
     uint64_t copy_point;
     /// @brief A pointer to the head of the queue.
     Node *head;
-    /// @brief A pointer to the array of return values.
-    RetVal *ret;
 #ifdef DEBUG
     int32_t counter;
 #endif
-- 
2.43.0


From 5ecd9752a52d1d1f3debc33a0a9f1a3daddeef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 06/23] fix: OsciInit sizes its groups from the number of
 fibers it actually uses

---
 libconcurrent/concurrent/osci.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index e56672e..d307a28 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -130,7 +130,7 @@ void OsciInit(OsciStruct *l, uint32_t nthreads, uint32_t fibers_per_thread) {
         l->fibers_per_thread = fibers_per_thread;
     else
         l->fibers_per_thread = 1;
-    l->groups_of_fibers = (nthreads / fibers_per_thread) + (nthreads % fibers_per_thread != 0 ? 1 : 0);
+    l->groups_of_fibers = (nthreads / l->fibers_per_thread) + (nthreads % l->fibers_per_thread != 0 ? 1 : 0);
 #ifdef DEBUG
     l->rounds = l->counter = 0;
 #endif
-- 
2.43.0


From 1dcf8e420027c4fdf3f1f4c562feb4a47cc602cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 07/23] fix: OsciQueue and OsciStack allocate one pool per
 fiber

---
 libconcurrent/concurrent/osciqueue.c | 2 +-
 libconcurrent/concurrent/oscistack.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/osciqueue.c b/libconcurrent/concurrent/osciqueue.c
index 0e43ece..8ba0ee1 100644
--- a/libconcurrent/concurrent/osciqueue.c
+++ b/libconcurrent/concurrent/osciqueue.c
@@ -7,7 +7,7 @@ inline static RetVal serialDequeue(void *state, ArgVal arg, int pid);
 void OsciQueueInit(OsciQueueStruct *queue_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(queue_object_struct->enqueue_struct), nthreads, fibers_per_thread);
     OsciInit(&queue_object_struct->dequeue_struct, nthreads, fibers_per_thread);
-    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, queue_object_struct->enqueue_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    queue_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     queue_object_struct->guard.val = GUARD_VALUE;
     queue_object_struct->guard.next = NULL;
     queue_object_struct->first = &queue_object_struct->guard;
diff --git a/libconcurrent/concurrent/oscistack.c b/libconcurrent/concurrent/oscistack.c
index 08e06d6..e27afed 100644
--- a/libconcurrent/concurrent/oscistack.c
+++ b/libconcurrent/concurrent/oscistack.c
@@ -7,7 +7,7 @@ static const ArgVal POP_OP = GUARD_VALUE;
 
 void OsciStackInit(OsciStackStruct *stack_object_struct, uint32_t nthreads, uint32_t fibers_per_thread) {
     OsciInit(&(stack_object_struct->object_struct), nthreads, fibers_per_thread);
-    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, stack_object_struct->object_struct.groups_of_fibers * sizeof(SynchPoolStruct));
+    stack_object_struct->pool_node = synchGetAlignedMemory(CACHE_LINE_SIZE, nthreads * sizeof(SynchPoolStruct));
     stack_object_struct->top = NULL;
 }
 
-- 
2.43.0


From 5c0a11bb72e6dcc6d88a94bf25ed0a7c64d81130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/23] fix: LCRQ no longer loses an enqueued -1

---
 libconcurrent/concurrent/lcrq.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 710b728..8af3946 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -43,6 +43,9 @@
 #include <primitives.h>
 #include <lcrq.h>
 
+// Marks a ring cell that holds no element; GUARD_VALUE is never a user's value.
+#define EMPTY_CELL ((uint64_t)GUARD_VALUE)
+
 inline static int is_empty(uint64_t v) __attribute__ ((pure));
 inline static uint64_t node_index(uint64_t i) __attribute__ ((pure));
 inline static uint64_t set_unsafe(uint64_t i) __attribute__ ((pure));
@@ -70,7 +73,7 @@ inline static void init_ring(RingQueue *r) {
     int i;
 
     for (i = 0; i < RING_SIZE; i++) {
-        r->array[i].val = -1;
+        r->array[i].val = EMPTY_CELL;
         r->array[i].idx = i;
     }
 
@@ -79,7 +82,7 @@ inline static void init_ring(RingQueue *r) {
 }
 
 inline static int is_empty(uint64_t v)  {
-    return (v == (uint64_t)-1);
+    return (v == EMPTY_CELL);
 }
 
 inline static uint64_t node_index(uint64_t i) {
@@ -183,7 +186,7 @@ alloc:
 
         if (synchLikely(is_empty(val))) {
             if (synchLikely(node_index(idx) <= t)) {
-                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, -1, idx, arg, t)) {
+                if ((synchLikely(!node_unsafe(idx)) || rq->head < t) && synchCAS128((uint64_t *)cell, EMPTY_CELL, idx, arg, t)) {
                     return;
                 }
             }
@@ -226,7 +229,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
             if (synchLikely(!is_empty(val))) {
                 if (synchLikely(idx == h)) {
-                    if (synchCAS128((uint64_t *)cell, val, cell_idx, -1, (unsafe | h) + RING_SIZE)) return val;
+                    if (synchCAS128((uint64_t *)cell, val, cell_idx, EMPTY_CELL, (unsafe | h) + RING_SIZE)) return val;
                 } else {
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, set_unsafe(idx))) {
                         count_unsafe_node(thread_state);
-- 
2.43.0


From 0dd121858543d814a098b176aaf9a57a4892fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 09/23] fix: deleting the second key of a hash bucket no longer
 drops the first one

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index b053460..dab189a 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -74,7 +74,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index b3ac042..6789356 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -77,7 +77,7 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             cur = cur->next;
         }
         if (found) {
-            if (top != prev)
+            if (cur != top)
                 prev->next = cur->next;
             else
                 cells[arg.cell].ptr = cur->next;
-- 
2.43.0


From a730a508f86516f65ea4bc46b99360ee6a29bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 10/23] fix: hash tables no longer index out of bounds for
 negative keys

---
 libconcurrent/concurrent/clhhash.c | 2 +-
 libconcurrent/concurrent/dsmhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index dab189a..4115287 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -25,7 +25,7 @@ inline void CLHHashThreadStateInit(CLHHash *hash, CLHHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(CLHHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 6789356..2f8b5ae 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -29,7 +29,7 @@ inline void DSMHashThreadStateInit(DSMHash *hash, DSMHashThreadState *th_state,
 }
 
 static inline int64_t hash_func(DSMHash *hash, int64_t key) {
-    return key % hash->size;
+    return (uint64_t)key % hash->size;
 }
 
 static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
-- 
2.43.0


From 34ffc76d440b5196ff93db938d5c90c60d54facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 11/23] fix: inserting an existing key updates its value, as
 documented

---
 libconcurrent/concurrent/clhhash.c | 4 +++-
 libconcurrent/concurrent/dsmhash.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libconcurrent/concurrent/clhhash.c b/libconcurrent/concurrent/clhhash.c
index 4115287..73fbba0 100644
--- a/libconcurrent/concurrent/clhhash.c
+++ b/libconcurrent/concurrent/clhhash.c
@@ -53,7 +53,9 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             }
             cur = cur->next;
         }
-        if (found == false) {
+        if (found) {
+            cur->value = value;
+        } else {
             arg.node->key = key;
             arg.node->value = value;
             arg.node->next = top;
diff --git a/libconcurrent/concurrent/dsmhash.c b/libconcurrent/concurrent/dsmhash.c
index 2f8b5ae..a4bfda8 100644
--- a/libconcurrent/concurrent/dsmhash.c
+++ b/libconcurrent/concurrent/dsmhash.c
@@ -56,7 +56,9 @@ static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {
             }
             cur = cur->next;
         }
-        if (found == false) {
+        if (found) {
+            cur->value = value;
+        } else {
             arg.node->key = key;
             arg.node->value = value;
             arg.node->next = top;
-- 
2.43.0


From aee1857d422a81c0500f7d3866be8bb54ea2a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 12/23] fix: the pool links its new blocks, so they are reused
 after a rollback and freed at the end

---
 libconcurrent/primitives/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/pool.c b/libconcurrent/primitives/pool.c
index a4b4a1b..e54b041 100644
--- a/libconcurrent/primitives/pool.c
+++ b/libconcurrent/primitives/pool.c
@@ -58,6 +58,7 @@ void *synchAllocObj(SynchPoolStruct *pool) {
             } else {
                 SynchPoolBlock *new_block = get_new_block(pool->obj_size);
                 new_block->metadata.back = pool->cur_block;
+                pool->cur_block->metadata.next = new_block;
                 pool->cur_block = new_block;
             }
             ret = synchAllocObj(pool);
-- 
2.43.0


From 51110049e2d8e4ab51a243670dcde70f5fdeb391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 13/23] fix: aligned memory can be released and its allocation
 failures are detected

---
 libconcurrent/primitives/primitives.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libconcurrent/primitives/primitives.c b/libconcurrent/primitives/primitives.c
index 377f726..b228ba8 100644
--- a/libconcurrent/primitives/primitives.c
+++ b/libconcurrent/primitives/primitives.c
@@ -159,11 +159,18 @@ inline void *synchGetAlignedMemory(size_t align, size_t size) {
     void *p;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    p = numa_alloc_local(size + align);
-    long plong = (long)p;
-    plong += align;
-    plong &= ~(align - 1);
-    p = (void *)plong;
+    if (align <= (size_t)numa_pagesize()) {
+        // numa_alloc_local returns page-aligned memory, which can be released only if it is returned as is
+        p = numa_alloc_local(size);
+    } else {
+        p = numa_alloc_local(size + align);
+        if (p != NULL) {
+            long plong = (long)p;
+            plong += align;
+            plong &= ~(align - 1);
+            p = (void *)plong;
+        }
+    }
 #else
     p = (void *)memalign(align, size);
 #endif
-- 
2.43.0


From 2e003b2b210ef1f0e0550c9cd186c5e57f5324dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 14/23] fix: H-Synch never places a thread on a cluster that
 does not exist

---
 libconcurrent/concurrent/hsynch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index bb58103..d9e7aaa 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -97,6 +97,7 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
 #else
     node_of_thread = pid / l->numa_node_size;
 #endif
+    node_of_thread %= l->numa_nodes;
 
     if (l->nodes[node_of_thread] == NULL) {
         HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
-- 
2.43.0


From b25f9c64fcd3e28cbb511302ae286cc1c0fc3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 15/23] fix: an H-Synch cluster has room for every thread that
 may join it

---
 libconcurrent/concurrent/hsynch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index d9e7aaa..94a7b2c 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -100,17 +100,17 @@ void HSynchThreadStateInit(HSynchStruct *l, HSynchThreadState *st_thread, int pi
     node_of_thread %= l->numa_nodes;
 
     if (l->nodes[node_of_thread] == NULL) {
-        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->numa_node_size + 2) * sizeof(HSynchNode));
+        HSynchNode *ptr = synchGetAlignedMemory(CACHE_LINE_SIZE, (l->nthreads + 1) * sizeof(HSynchNode));
 
-        last_node = &ptr[l->numa_node_size + 1];
+        last_node = &ptr[l->nthreads];
         last_node->next = NULL;
         last_node->locked = false;
         last_node->completed = false;
 
         if (synchCASPTR(&l->nodes[node_of_thread], NULL, ptr) == false) 
-            synchFreeMemory(ptr, (l->numa_node_size + 2) * sizeof(HSynchNode));
+            synchFreeMemory(ptr, (l->nthreads + 1) * sizeof(HSynchNode));
     }
-    last_node = l->nodes[node_of_thread] + l->numa_node_size + 1;
+    last_node = l->nodes[node_of_thread] + l->nthreads;
     synchCASPTR(&l->Tail[node_of_thread].ptr, NULL, last_node);
     node_index = synchFAA32(&l->node_indexes[node_of_thread], 1);
     st_thread->next_node = l->nodes[node_of_thread] + node_index;
-- 
2.43.0


From c45cabba0ace0ebeaa58a22808332d9feabfe145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 16/23] Verification hook: small help and patience bounds under
 SYNCH_VERIFY

---
 libconcurrent/concurrent/ccsynch.c  |  4 ++++
 libconcurrent/concurrent/dsmsynch.c |  4 ++++
 libconcurrent/concurrent/hsynch.c   |  4 ++++
 libconcurrent/concurrent/lcrq.c     | 15 ++++++++++++---
 libconcurrent/concurrent/osci.c     |  4 ++++
 libconcurrent/concurrent/oyama.c    |  4 ++++
 6 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/libconcurrent/concurrent/ccsynch.c b/libconcurrent/concurrent/ccsynch.c
index 02d54cc..748ba67 100644
--- a/libconcurrent/concurrent/ccsynch.c
+++ b/libconcurrent/concurrent/ccsynch.c
@@ -3,7 +3,11 @@
 #include <primitives.h>
 #include <threadtools.h>
 
+#ifdef SYNCH_VERIFY // a small bound, within reach of the verification scenarios
+static const int CCSYNCH_HELP_FACTOR = 1;
+#else
 static const int CCSYNCH_HELP_FACTOR = 10;
+#endif
 
 RetVal CCSynchApplyOp(CCSynchStruct *l, CCSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile CCSynchNode *p;
diff --git a/libconcurrent/concurrent/dsmsynch.c b/libconcurrent/concurrent/dsmsynch.c
index 47f771a..984df79 100644
--- a/libconcurrent/concurrent/dsmsynch.c
+++ b/libconcurrent/concurrent/dsmsynch.c
@@ -1,7 +1,11 @@
 #include <dsmsynch.h>
 #include <threadtools.h>
 
+#ifdef SYNCH_VERIFY // a small bound, within reach of the verification scenarios
+static const int DSMSYNCH_HELP_FACTOR = 1;
+#else
 static const int DSMSYNCH_HELP_FACTOR = 10;
+#endif
 
 RetVal DSMSynchApplyOp(DSMSynchStruct *l, DSMSynchThreadState *st_thread, RetVal (*sfunc)(void *, ArgVal, int), void *state, ArgVal arg, int pid) {
     volatile DSMSynchNode *mynode;
diff --git a/libconcurrent/concurrent/hsynch.c b/libconcurrent/concurrent/hsynch.c
index 94a7b2c..4bf7dac 100644
--- a/libconcurrent/concurrent/hsynch.c
+++ b/libconcurrent/concurrent/hsynch.c
@@ -7,7 +7,11 @@
 #    include <numa.h>
 #endif
 
+#ifdef SYNCH_VERIFY // a small bound, within reach of the verification scenarios
+#define HSYNCH_HELP_FACTOR            1
+#else
 #define HSYNCH_HELP_FACTOR            10
+#endif
 #define HSYNCH_DEFAULT_NUMA_NODE_SIZE 8
 
 static __thread int node_of_thread = 0;
diff --git a/libconcurrent/concurrent/lcrq.c b/libconcurrent/concurrent/lcrq.c
index 8af3946..b49b7a9 100644
--- a/libconcurrent/concurrent/lcrq.c
+++ b/libconcurrent/concurrent/lcrq.c
@@ -46,6 +46,15 @@
 // Marks a ring cell that holds no element; GUARD_VALUE is never a user's value.
 #define EMPTY_CELL ((uint64_t)GUARD_VALUE)
 
+// For how long a dequeuer waits for a slow enqueuer, and how often it looks at the tail in the meantime
+#ifdef SYNCH_VERIFY // small bounds, within reach of the verification scenarios
+#    define DEQUEUE_PATIENCE   2
+#    define TAIL_REREAD_PERIOD 2
+#else
+#    define DEQUEUE_PATIENCE   200000
+#    define TAIL_REREAD_PERIOD (1ull << 10)
+#endif
+
 inline static int is_empty(uint64_t v) __attribute__ ((pure));
 inline static uint64_t node_index(uint64_t i) __attribute__ ((pure));
 inline static uint64_t set_unsafe(uint64_t i) __attribute__ ((pure));
@@ -237,7 +246,7 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
                     }
                 }
             } else {
-                if ((r & ((1ull << 10) - 1)) == 0)
+                if ((r & (TAIL_REREAD_PERIOD - 1)) == 0)
                     tt = rq->tail;
 
                 // Optimization: try to bail quickly if queue is closed.
@@ -246,9 +255,9 @@ RetVal LCRQDequeue(LCRQStruct *queue, LCRQThreadState *thread_state, int pid UNU
 
                 if (synchUnlikely(unsafe)) {  // Nothing to do, move along
                     if (synchCAS128((uint64_t *)cell, val, cell_idx, val, (unsafe | h) + RING_SIZE)) break;
-                } else if (t < h + 1 || r > 200000 || crq_closed) {
+                } else if (t < h + 1 || r > DEQUEUE_PATIENCE || crq_closed) {
                     if (synchCAS128((uint64_t *)cell, val, idx, val, h + RING_SIZE)) {
-                        if (r > 200000 && tt > RING_SIZE) synchBitTAS64(&rq->tail, 63);
+                        if (r > DEQUEUE_PATIENCE && tt > RING_SIZE) synchBitTAS64(&rq->tail, 63);
                         break;
                     }
                 } else {
diff --git a/libconcurrent/concurrent/osci.c b/libconcurrent/concurrent/osci.c
index d307a28..0a27a7d 100644
--- a/libconcurrent/concurrent/osci.c
+++ b/libconcurrent/concurrent/osci.c
@@ -1,7 +1,11 @@
 #include <osci.h>
 #include <threadtools.h>
 
+#ifdef SYNCH_VERIFY // a small bound, within reach of the verification scenarios
+static const int OSCI_HELP_FACTOR = 1;
+#else
 static const int OSCI_HELP_FACTOR = 10;
+#endif
 
 void OsciThreadStateInit(OsciThreadState *st_thread, OsciStruct *l, int pid) {
     int i, j;
diff --git a/libconcurrent/concurrent/oyama.c b/libconcurrent/concurrent/oyama.c
index 0506a43..0620ae6 100644
--- a/libconcurrent/concurrent/oyama.c
+++ b/libconcurrent/concurrent/oyama.c
@@ -5,7 +5,11 @@ inline static void OyamaWait(void);
 
 const int LOCKED = 1;
 const int UNLOCKED = 0;
+#ifdef SYNCH_VERIFY // a small bound, within reach of the verification scenarios
+const int OYAMA_HELP_FACTOR = 1;
+#else
 const int OYAMA_HELP_FACTOR = 10;
+#endif
 
 static void OyamaWait(void) {
     synchResched();
-- 
2.43.0


From 1f2ad5c7a8d6441b8a843cb0c721d2e905ce7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 17/23] fix: the last-leave waiter of a barrier waits until
 every participant has left

---
 libconcurrent/primitives/barrier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/barrier.c b/libconcurrent/primitives/barrier.c
index 4cee31a..b5c1213 100644
--- a/libconcurrent/primitives/barrier.c
+++ b/libconcurrent/primitives/barrier.c
@@ -45,7 +45,7 @@ inline void synchBarrierLeave(SynchBarrier *bar) {
 
 inline void synchBarrierLastLeave(SynchBarrier *bar) {
     synchBarrierLeave(bar);
-    while (bar->arrive != 0 && bar->leave != 0) {
+    while (bar->arrive != 0 || bar->leave != 0) {
         synchResched();
     }
 }
-- 
2.43.0


From 6b8d1fa2bac2dc492d006fb70c13c65544c4d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 18/23] fix: the preferred NUMA node of a thread is the node of
 its preferred core

---
 libconcurrent/primitives/threadtools.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 63823d1..1086390 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -129,21 +129,11 @@ inline uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) {
     uint32_t preferred_node = 0;
 
 #ifdef SYNCH_NUMA_SUPPORT
-    uint32_t preferred_core = synchPreferredCoreOfThread(pid);
-    uint32_t ncpus = synchGetNCores();
-    uint32_t nodes = numa_num_task_nodes();
-    uint32_t node_size = ncpus / nodes;
-
-    if (numa_node_of_cpu(0) == numa_node_of_cpu(ncpus / 2)) { // SMT or HyperThreading detected
-        uint32_t half_node_size = node_size / 2;
-
-        if (preferred_core < ncpus / 2)
-            preferred_node = preferred_core/half_node_size;
-        else 
-            preferred_node = (preferred_core - (ncpus/2))/half_node_size;
-    } else {
-        preferred_node = preferred_core/node_size;
-    }
+    // Only the system knows how its cores are distributed among the NUMA nodes
+    int node = numa_node_of_cpu(synchPreferredCoreOfThread(pid));
+
+    if (node >= 0)
+        preferred_node = node;
 #else
     preferred_node = 0;
 #endif
-- 
2.43.0


From 425989bdcc1f9e0b3478d6a82888b49bc082eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 19/23] fix: starting threads again does not keep the
 scheduling mode of an earlier start

---
 libconcurrent/primitives/threadtools.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/threadtools.c b/libconcurrent/primitives/threadtools.c
index 1086390..94d9fe5 100644
--- a/libconcurrent/primitives/threadtools.c
+++ b/libconcurrent/primitives/threadtools.c
@@ -201,6 +201,7 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         __uthreads = uthreads;
         __uthread_sched = true;
         __system_oversubscription = true;
+        __noop_resched = false;
         synchBarrierSet(&bar, nthreads / uthreads + 1);
         for (i = 0; i < (nthreads / uthreads) - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, uthreadWrapper, (void *)(i * uthreads));
@@ -213,10 +214,8 @@ int synchStartThreadsN(uint32_t nthreads, void *(*func)(void *), uint32_t uthrea
         uthreadWrapper((void *)(i * uthreads));
     } else {
         __uthread_sched = false;
-        if (__nthreads > __ncores)
-            __system_oversubscription = true;
-        else
-            __noop_resched = true;
+        __system_oversubscription = __nthreads > __ncores;
+        __noop_resched = !__system_oversubscription;
         synchBarrierSet(&bar, nthreads + 1);
         for (i = 0; i < nthreads - 1; i++) {
             last_thread_id = pthread_create(&__threads[i], NULL, kthreadWrapper, (void *)i);
-- 
2.43.0


From 1b481fc6f509b1c94d7d55598c32d8cc255cb5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 20/23] fix: the whole stack of a finished fiber is released,
 not just its first page

---
 libconcurrent/primitives/uthreads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index c60c44c..f014734 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -54,7 +54,7 @@ void synchFiberYield(void) {
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
     if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, sizeof(Fiber));
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
         FIBER_RECYCLE = NULL;
     }
 }
-- 
2.43.0


From d4872bcb51e67264858315a7f5f7cc342508e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 21/23] fix: a new fiber does not take the slot of a fiber that
 is still running

---
 libconcurrent/primitives/uthreads.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index f014734..494fc61 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -86,23 +86,27 @@ static void fiber_start_func(FiberData *context) {
 int synchSpawnFiber(void *(*func)(void *), long arg) {
     ucontext_t tmp;
     FiberData context;
+    int slot = 1;
 
     if (N_FIBERS == MAX_FIBERS)
         return -1;
 
-    getcontext(&(FIBER_LIST[N_FIBERS].context));
-    FIBER_LIST[N_FIBERS].active = true;
-    FIBER_LIST[N_FIBERS].context.uc_link = NULL;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_size = FIBER_STACK;
-    FIBER_LIST[N_FIBERS].context.uc_stack.ss_flags = 0;
+    // The fibers do not always finish in the order of their creation, thus look for a slot that is not in use
+    while (FIBER_LIST[slot].active)
+        slot++;
+    getcontext(&(FIBER_LIST[slot].context));
+    FIBER_LIST[slot].active = true;
+    FIBER_LIST[slot].context.uc_link = NULL;
+    FIBER_LIST[slot].context.uc_stack.ss_sp = synchGetMemory(FIBER_STACK);
+    FIBER_LIST[slot].context.uc_stack.ss_size = FIBER_STACK;
+    FIBER_LIST[slot].context.uc_stack.ss_flags = 0;
 
     context.func = func;
     context.arg = arg;
-    context.cur = &FIBER_LIST[N_FIBERS].jmp;
+    context.cur = &FIBER_LIST[slot].jmp;
     context.prev = &tmp;
-    makecontext(&FIBER_LIST[N_FIBERS].context, (void (*)())fiber_start_func, 1, &context);
-    swapcontext(&tmp, &FIBER_LIST[N_FIBERS].context);
+    makecontext(&FIBER_LIST[slot].context, (void (*)())fiber_start_func, 1, &context);
+    swapcontext(&tmp, &FIBER_LIST[slot].context);
     N_FIBERS++;
     return 1;
 }
-- 
2.43.0


From e76357bf7b09112ba20e80419244145450573745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 22/23] fix: accept the documented option --backoff instead of
 rejecting it as ambiguous

---
 libconcurrent/primitives/bench_args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libconcurrent/primitives/bench_args.c b/libconcurrent/primitives/bench_args.c
index ed9e5ce..32071ff 100644
--- a/libconcurrent/primitives/bench_args.c
+++ b/libconcurrent/primitives/bench_args.c
@@ -34,6 +34,7 @@ void synchParseArguments(SynchBenchArgs *bench_args, int argc, char *argv[]) {
              {"runs", required_argument, 0, 'r'},
              {"max_work", required_argument, 0, 'w'},
              {"backoff_low", required_argument, 0, 'l'},
+             {"backoff", required_argument, 0, 'b'},
              {"backoff_high", required_argument, 0, 'b'},
              {"numa_nodes", required_argument, 0, 'n'},
              {"help", no_argument, 0, 'h'},
-- 
2.43.0


From ffdb6503d6024e29848f1c0a925e674711b1cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:31 +0000
Subject: [PATCH 23/23] fix: release the stack of every finished fiber, also
 when the next fiber starts for the first time

---
 libconcurrent/primitives/uthreads.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libconcurrent/primitives/uthreads.c b/libconcurrent/primitives/uthreads.c
index 494fc61..79c7e3b 100644
--- a/libconcurrent/primitives/uthreads.c
+++ b/libconcurrent/primitives/uthreads.c
@@ -42,6 +42,14 @@ inline static void switch_to_fiber(Fiber *prev, Fiber *cur) {
     }
 }
 
+// Releases the stack of the fiber that finished right before the switch to the current fiber
+inline static void release_finished_fiber(void) {
+    if (FIBER_RECYCLE != NULL) {
+        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
+        FIBER_RECYCLE = NULL;
+    }
+}
+
 void synchFiberYield(void) {
     int prev_fiber;
 
@@ -53,10 +61,7 @@ void synchFiberYield(void) {
         currentFiber = (currentFiber + 1) % MAX_FIBERS;
     } while (FIBER_LIST[currentFiber].active == false);
     switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);
-    if (FIBER_RECYCLE != NULL) {
-        synchFreeMemory(FIBER_RECYCLE, FIBER_STACK);
-        FIBER_RECYCLE = NULL;
-    }
+    release_finished_fiber();
 }
 
 static void fiber_start_func(FiberData *context) {
@@ -69,6 +74,7 @@ static void fiber_start_func(FiberData *context) {
     arg = context->arg;
     if (_setjmp(*(context->cur)) == 0)
         swapcontext(&tmp, context->prev);
+    release_finished_fiber();
 
     func((void *)arg); // Execute fiber with function func
     if (N_FIBERS == 1) // This check is not useful, since
-- 
2.43.0

