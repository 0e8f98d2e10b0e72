From 6a91b0dc4166243bc47ec95b6b6efe0af9584ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:03 +0000
Subject: [PATCH 01/25] fix: keep arena operations inside the arena and merge
 free neighbours

---
 runtime/arena.c | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..1427e2f 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -51,6 +51,13 @@ struct gracht_arena {
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
 
+// the end of the arena, there is never a header at (or beyond) this address
+#define GET_END_HEADER(arena) ((struct gracht_header*)((char*)(arena)->base + (arena)->length))
+#define IS_FREE_HEADER(arena, hdr) ((hdr) < GET_END_HEADER(arena) && !(hdr)->allocated)
+
+// the length field of the header is limited to 24 bits
+#define ARENA_MAX_LENGTH 0x00FFFFF0
+
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
 int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
@@ -63,6 +70,10 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
         return -1;
     }
 
+    if (size > ARENA_MAX_LENGTH) {
+        size = ARENA_MAX_LENGTH;
+    }
+
     base = malloc(size);
     if (!base) {
         errno = ENOMEM;
@@ -119,21 +130,24 @@ static inline void move_header(struct gracht_header* header, long byteCount)
 
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr < GET_END_HEADER(arena)) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
-        }
-
-        if (!itr->length) {
-            break;
+        if (!itr->allocated) {
+            // freeing only merges in forward direction, so merge what is left here
+            struct gracht_header* next = GET_NEXT_HEADER(itr);
+            while (IS_FREE_HEADER(arena, next)) {
+                itr->length += next->length + HEADER_SIZE;
+                next = GET_NEXT_HEADER(itr);
+            }
+
+            if (itr->length >= size) {
+                return itr;
+            }
         }
 
-        length += itr->length;
         itr = GET_NEXT_HEADER(itr);
     }
     return NULL;
@@ -154,11 +168,15 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
         struct gracht_header* header     = GET_HEADER(allocation);
         struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!IS_FREE_HEADER(arena, nextHeader) || nextHeader->length < correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
 
             allocHeader = find_free_header(arena, correctedSize);
+            if (!allocHeader) {
+                mtx_unlock(&arena->mutex);
+                return NULL;
+            }
             memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
 
             // what consequences could this call have
@@ -231,7 +249,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (IS_FREE_HEADER(arena, nextHeader)) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +264,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (IS_FREE_HEADER(arena, nextHeader)) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From 33547dc549e33be4dba1d8b113d754abf464ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:40 +0000
Subject: [PATCH 02/25] fix: make the server buffer stack safe against
 concurrent use

---
 include/stack.h  | 11 ++++---
 runtime/server.c | 15 +++++++--
 runtime/stack.c  | 79 +++++++++++++++++-------------------------------
 3 files changed, 45 insertions(+), 60 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..5f0720f 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -20,18 +20,19 @@
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t  lock;
+    void** elements;
+    size_t index;
+    size_t count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
 void  stack_destroy(struct stack* stack);
-void  stack_push(struct stack* stack, void* pointer);
+int   stack_push(struct stack* stack, void* pointer);
 void* stack_pop(struct stack* stack);
 
 #endif //! __GRACHT_STACK_H__
diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..4957e88 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -123,6 +123,8 @@ static void     client_enum_destroy(int index, const void* element, void* userCo
 static void     client_enum_broadcast(int index, const void* element, void* userContext);
 
 
+static void put_buffer(struct gracht_server*, gracht_buffer_t*);
+
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
@@ -623,6 +625,13 @@ int gracht_server_get_buffer(gracht_server_t* server, gracht_buffer_t* buffer)
     return 0;
 }
 
+static void put_buffer(struct gracht_server* server, gracht_buffer_t* buffer)
+{
+    if (stack_push(&server->bufferStack, buffer->data)) {
+        free(buffer->data);
+    }
+}
+
 int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
     struct client_wrapper* entry;
@@ -657,7 +666,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
     }
 
     // return the borrowed buffer to the stack
-    stack_push(&messageContext->server->bufferStack, message->data);
+    put_buffer(messageContext->server, message);
     return status;
 }
 
@@ -687,7 +696,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message);
     return status;
 }
 
@@ -711,7 +720,7 @@ int gracht_server_broadcast_event(gracht_server_t* server, gracht_buffer_t* mess
     rwlock_r_unlock(&server->clients_lock);
 
     // return the borrowed buffer to the stack
-    stack_push(&server->bufferStack, message->data);
+    put_buffer(server, message);
     return 0;
 }
 
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..b830e6f 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -19,30 +19,23 @@
 
 #include <errno.h>
 #include "stack.h"
-#include <stdint.h>
 #include <stdlib.h>
-#include <string.h>
-
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
 
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->lock, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -51,75 +44,57 @@ int stack_construct(struct stack* stack, size_t initialCount)
 
 void stack_destroy(struct stack* stack)
 {
-    if (!stack) {
+    if (!stack || !stack->elements) {
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    free(stack->elements);
+    stack->elements = NULL;
+    mtx_destroy(&stack->lock);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    void** resized = realloc(stack->elements, sizeof(void*) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
-void stack_push(struct stack* stack, void* pointer)
+int stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
-        return;
+        errno = EINVAL;
+        return -1;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->lock);
+    if (stack->index == stack->count && stack_resize(stack, stack->count * 2)) {
+        mtx_unlock(&stack->lock);
+        return -1;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    stack->elements[stack->index++] = pointer;
+    mtx_unlock(&stack->lock);
+    return 0;
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->lock);
+    if (stack->index) {
+        pointer = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->lock);
+    return pointer;
 }
-- 
2.43.0


From b581ca57d7456bce43321e9065a21094008a00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 03/25] fix: do not miss worker wake-ups and report worker
 creation failures

---
 runtime/dispatch_generic.c | 52 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..d128056 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -52,7 +52,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -85,7 +85,12 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     pool->worker_count = numberOfWorkers;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            // destroy those that did get initialized
+            pool->worker_count = i;
+            gracht_worker_pool_destroy(pool);
+            return -1;
+        }
     }
 
     *poolOut = pool;
@@ -103,8 +108,10 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -137,27 +144,37 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        errno = ENOMEM;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker queue"));
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        errno = EAGAIN;
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
@@ -175,20 +192,15 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
-    while (1) {
-        mtx_lock(&worker->sync_object);
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    while (worker->state != WORKER_SHUTDOWN_REQUEST) {
         job = gr_queue_dequeue(&worker->job_queue);
         if (!job) {
             cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
-                break;
-            }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            continue;
         }
         mtx_unlock(&worker->sync_object);
 
@@ -197,12 +209,10 @@ static int worker_dowork(void* context)
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
 
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
+        mtx_lock(&worker->sync_object);
     }
+    worker->state = WORKER_SHUTDOWN;
+    mtx_unlock(&worker->sync_object);
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
     job = gr_queue_dequeue(&worker->job_queue);
-- 
2.43.0


From 6971f221c82ac87ff08250375aca5b4159f78a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:59 +0000
Subject: [PATCH 04/25] fix: grow the worker queue instead of dropping requests

---
 runtime/dispatch_generic.c |  8 +++++++-
 runtime/queue.c            | 24 ++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index d128056..9e0b1e4 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -126,6 +126,7 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status;
 
     if (!pool || !recvMessage) {
         return;
@@ -133,10 +134,15 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
+    status = gr_queue_enqueue(&worker->job_queue, recvMessage);
     mtx_unlock(&worker->sync_object);
     cnd_signal(&worker->signal);
 
+    if (status) {
+        GRERROR(GRSTR("gracht_worker_pool_dispatch: failed to queue message"));
+        server_cleanup_message(recvMessage->server, recvMessage);
+    }
+
     // increase round robin index and handle limit
     pool->rr_index++;
     if (pool->rr_index == pool->worker_count) {
diff --git a/runtime/queue.c b/runtime/queue.c
index be6ca96..ac60e83 100644
--- a/runtime/queue.c
+++ b/runtime/queue.c
@@ -58,6 +58,27 @@ static inline int capacity_remaining(struct gr_queue* queue)
     return queue->capacity - (queue->queue_index - queue->dequeue_index);
 }
 
+static int grow_queue(struct gr_queue* queue)
+{
+    unsigned int count    = queue->queue_index - queue->dequeue_index;
+    uintptr_t*   elements = malloc(sizeof(uintptr_t) * queue->capacity * 2);
+    if (!elements) {
+        errno = ENOMEM;
+        return -1;
+    }
+
+    for (unsigned int i = 0; i < count; i++) {
+        elements[i] = queue->elements[(queue->dequeue_index + i) % queue->capacity];
+    }
+
+    free(queue->elements);
+    queue->elements      = elements;
+    queue->capacity     *= 2;
+    queue->dequeue_index = 0;
+    queue->queue_index   = count;
+    return 0;
+}
+
 int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
 {
     unsigned int index;
@@ -67,8 +88,7 @@ int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
         return -1;
     }
 
-    if (!capacity_remaining(queue)) {
-        errno = ENOENT;
+    if (!capacity_remaining(queue) && grow_queue(queue)) {
         return -1;
     }
 
-- 
2.43.0


From 46983da43811c163fcdfa67670a61a245af76c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:26 +0000
Subject: [PATCH 05/25] fix: report and undo every failure while creating a
 server

---
 runtime/server.c | 31 ++++++++++++++++++++-----------
 runtime/stack.c  |  2 +-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 4957e88..4e1fe35 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -126,6 +126,7 @@ static void     client_enum_broadcast(int index, const void* element, void* user
 static void put_buffer(struct gracht_server*, gracht_buffer_t*);
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
+static int gracht_server_shutdown(gracht_server_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
 {
@@ -145,23 +146,31 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     memset(server, 0, sizeof(gracht_server_t));
     server->set_handle = GRACHT_HANDLE_INVALID;
 
-    status = configure_server(server, config);
-    if (status) {
-        GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
-        free(server);
-        return -1;
-    }
-
     // initialize static members of the instance
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
+    status = gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
+    if (!status) {
+        status = gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
+    }
+    if (!status) {
+        status = stack_construct(&server->bufferStack, 8);
+    }
 
-    // everything is set up - update state before registering control protocol
+    // from this point the instance can be destroyed by the regular shutdown
     server->state = RUNNING;
 
+    if (!status) {
+        status = configure_server(server, config);
+    }
+    if (status) {
+        int error = errno;
+        GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
+        gracht_server_shutdown(server);
+        errno = error;
+        return -1;
+    }
+
     gracht_server_register_protocol(server, &gracht_control_server_protocol);
 
     *serverOut = server;
diff --git a/runtime/stack.c b/runtime/stack.c
index b830e6f..90147bf 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -87,7 +87,7 @@ void* stack_pop(struct stack* stack)
 {
     void* pointer = NULL;
 
-    if (!stack) {
+    if (!stack || !stack->elements) {
         return NULL;
     }
 
-- 
2.43.0


From 007dcaf182f44e10b8f26de9862205cf77fe9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:50 +0000
Subject: [PATCH 06/25] fix: report failed link setups and undo them

---
 runtime/link/socket/server.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..d676e44 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -267,12 +267,13 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -306,18 +307,19 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
-            return GRACHT_CONN_INVALID;
+            goto error;
         }
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            goto error;
         }
 
 #ifdef _WIN32
@@ -329,7 +331,11 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         return link->base.connection;
     }
     
-    errno = (ENOTSUP);
+error:
+    status = errno;
+    close(link->base.connection);
+    link->base.connection = GRACHT_CONN_INVALID;
+    errno = status;
     return GRACHT_CONN_INVALID;
 }
 
@@ -418,7 +424,11 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        // without it we would never hear from the client again
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        close(client->socket);
+        free(client);
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 05b8306390d8c894d624418f1accba8d51d69082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:38 +0000
Subject: [PATCH 07/25] fix: survive running out of server receive buffers

---
 runtime/server.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 4e1fe35..49c3ce4 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -304,7 +304,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -333,8 +333,12 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
     else {
         uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
         uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
+        uint32_t unusedLength   = server->allocationSize - messageLength - metaDatalength;
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // return what the message did not use, a length of 0 would free all of it
+        if (unusedLength) {
+            gracht_arena_free(server->arena, message, unusedLength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -343,14 +347,17 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
@@ -360,6 +367,12 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            // the packet stays in the link until there is room for it again
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -404,6 +417,8 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                // the message stays in the link until there is room for it again
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
-- 
2.43.0


From 9259ad49396c21dbe2cff45adad47b026b11c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:08 +0000
Subject: [PATCH 08/25] fix: keep the server in sync with fragmented and
 malformed client streams

---
 runtime/link/socket/server.c | 58 +++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index d676e44..41e4292 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -117,11 +117,31 @@ static int socket_link_send_client(struct socket_link_client* client,
     return 0;
 }
 
+// receive all of <length>, this continues after interruptions and short reads
+static int recv_all(gracht_conn_t socket, uint8_t* buffer, size_t length)
+{
+    size_t offset = 0;
+
+    while (offset < length) {
+        intmax_t bytesRead = recv(socket, (void*)(buffer + offset), length - offset, MSG_WAITALL);
+        if (bytesRead < 0 && errno == EINTR) {
+            continue;
+        }
+        if (bytesRead <= 0) {
+            return -1;
+        }
+        offset += (size_t)bytesRead;
+    }
+    return 0;
+}
+
 static int socket_link_recv_client(struct socket_link_client* client,
     struct gracht_message* context, unsigned int flags)
 {
     unsigned int socketFlags = get_socket_flags(flags);
+    uint32_t     capacity    = context->index;
     intmax_t     bytesRead;
+    uint32_t     messageLength;
     uint32_t     missingData;
     
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
@@ -148,33 +168,49 @@ static int socket_link_recv_client(struct socket_link_client* client,
         GRTRACE(GRSTR("socket_link_recv_client reading rest of message header %li/%i"), overlappedLength, GRACHT_MESSAGE_HEADER_SIZE);
         missingData = GRACHT_MESSAGE_HEADER_SIZE - overlappedLength;
         __set_nonblocking_if_needed(client->base.handle, GRACHT_MESSAGE_BLOCK);
-        bytesRead   = recv(client->base.handle, &context->payload[overlappedLength], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
+        if (recv_all(client->base.handle, &context->payload[overlappedLength], missingData)) {
+            errno = EFAULT;
             return -1;
         }
     }
 #else
-    bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    do {
+        bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
+    } while (bytesRead < 0 && errno == EINTR);
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = ENODATA;
         }
         return -1;
     }
+
+    // once we've received the start of a message, then the rest of it must follow
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        if (recv_all(client->base.handle, &context->payload[bytesRead], missingData)) {
+            errno = EFAULT;
+            return -1;
+        }
+    }
 #endif
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
-    missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    messageLength = *((uint32_t*)&context->payload[4]);
+    if (messageLength < GRACHT_MESSAGE_HEADER_SIZE || messageLength > capacity) {
+        // there is no way to find the next message in the stream, give up on the client
+        GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), messageLength);
+        errno = EFAULT;
+        return -1;
+    }
+
+    missingData = messageLength - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
-        bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
-            (size_t)missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
+        if (recv_all(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], missingData)) {
             // do not process incomplete requests
-            GRERROR(GRSTR("socket_link_recv_client did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
+            GRERROR(GRSTR("socket_link_recv_client did not read full amount of bytes (%u)"), missingData);
+            errno = EFAULT;
             return -1;
         }
     }
-- 
2.43.0


From 7d460044ed5294be8faecd66596df4d3941b578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:32 +0000
Subject: [PATCH 09/25] fix: handle the requests a client sent before it
 disconnected

---
 runtime/server.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 49c3ce4..e0f825c 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -401,17 +401,14 @@ static struct gracht_link* get_link_by_conn(struct gracht_server* server, gracht
 
 static int handle_client_event(struct gracht_server* server, gracht_conn_t handle, uint32_t events)
 {
-    int status;
+    struct client_wrapper* entry;
+    int                    disconnected = 0;
+    int                    status;
     GRTRACE(GRSTR("handle_client_event %" F_CONN_T ", 0x%x"), handle, events);
     
-    // Check for control event. On non-passive sockets, control event is the
-    // disconnect event.
-    if (events & GRACHT_AIO_EVENT_DISCONNECT) {
-        client_destroy(server, handle);
-    }
-    else if ((events & GRACHT_AIO_EVENT_IN) || !events) {
-        struct client_wrapper* entry;
-        
+    // Handle incoming messages first, the client may have sent requests right before
+    // it disconnected, and those must be handled as well.
+    if ((events & GRACHT_AIO_EVENT_IN) || !events) {
         rwlock_r_lock(&server->clients_lock);
         entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = handle });
         while (entry) {
@@ -426,27 +423,33 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
             
             status = entry->link->ops.server.recv_client(entry->client, message, 0);
             if (status) {
+                int error = errno;
                 server->ops->put_message(server, message);
-                rwlock_r_unlock(&server->clients_lock);
 
                 // silence the three below error codes, those are expected
-                if (errno != ENODATA && errno != EAGAIN && errno != EFAULT) {
-                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), errno);
+                if (error != ENODATA && error != EAGAIN && error != EFAULT) {
+                    GRERROR(GRSTR("handle_client_event server_object.link->recv_client returned %i"), error);
                 }
 
                 // detect cases of disconnection or transmission failures that are fatal.
                 // in these cases we expect the underlying link to specify EFAULT
-                if (errno == EFAULT) {
+                if (error == EFAULT) {
                     GRTRACE(GRSTR("handle_client_event client disconnected, cleaning up"));
-                    client_destroy(server, handle);
+                    disconnected = 1;
                 }
-                return 0;
+                break;
             }
 
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
     }
+
+    // Check for control event. On non-passive sockets, control event is the
+    // disconnect event.
+    if (disconnected || (events & GRACHT_AIO_EVENT_DISCONNECT)) {
+        client_destroy(server, handle);
+    }
     return 0;
 }
 
@@ -817,6 +820,14 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    // only the orchestrator thread removes clients, so the client can't disappear after
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
-- 
2.43.0


From 3e327b84f63b356fcccd6ed39b6e5244647cfaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:37 +0000
Subject: [PATCH 10/25] fix: send server messages to stream clients completely
 and unmixed

---
 runtime/link/socket/server.c    | 39 ++++++++++++++++++++++++++++-----
 runtime/link/socket/socket_os.h |  9 ++++++++
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 41e4292..0514fec 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -26,6 +26,7 @@
 #include "logging.h"
 #include "crc.h"
 #include "server_private.h"
+#include "thread_api.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -37,6 +38,7 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    mtx_t                       send_lock;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -66,6 +68,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
         return -1;
     }
 
+    mtx_init(&client->send_lock, mtx_plain);
     client->base.handle = client->socket;
     client->streaming   = 1;
     client->waitbuf.buf = &client->headerbuf[0];
@@ -102,19 +105,39 @@ static unsigned int get_socket_flags(unsigned int flags)
 static int socket_link_send_client(struct socket_link_client* client,
     struct gracht_buffer* message, unsigned int flags)
 {
-    unsigned int socketFlags = get_socket_flags(flags);
-    intmax_t     bytesWritten;
+    unsigned int socketFlags = get_socket_flags(flags) | MSG_NOSIGNAL;
+    uint32_t     offset      = 0;
+    int          status      = 0;
+
+    // messages can be sent from multiple threads, they must not be mixed up in the stream
+    mtx_lock(&client->send_lock);
 
 #ifdef _WIN32
     __set_nonblocking_if_needed(client->base.handle, flags);
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
-    if (bytesWritten != message->index) {
-        return -1;
+    while (offset < message->index) {
+        intmax_t bytesWritten = send(client->base.handle, &message->data[offset], message->index - offset, socketFlags);
+        if (bytesWritten < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+
+            // a message that has been partially sent, can neither be completed nor taken
+            // back. There is no way to recover the stream so disconnect the client.
+            status = -1;
+            if (offset) {
+                int error = errno;
+                shutdown(client->socket, SHUT_RDWR);
+                errno = error;
+            }
+            break;
+        }
+        offset += (uint32_t)bytesWritten;
     }
-    return 0;
+    mtx_unlock(&client->send_lock);
+    return status;
 }
 
 // receive all of <length>, this continues after interruptions and short reads
@@ -255,6 +278,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->base.handle = message->client;
     client->socket      = link->base.connection;
     client->streaming   = 0;
+    mtx_init(&client->send_lock, mtx_plain);
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
@@ -280,6 +304,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         }
     }
     status = close(client->base.handle);
+    mtx_destroy(&client->send_lock);
     free(client);
     return status;
 }
@@ -457,12 +482,14 @@ static int socket_link_accept(
     }
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
         // without it we would never hear from the client again
         GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
         close(client->socket);
+        mtx_destroy(&client->send_lock);
         free(client);
         return -1;
     }
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..c1c950b 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -160,4 +160,13 @@ struct gracht_link_socket {
 #endif
 };
 
+// not all platforms raise signals on broken connections
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
+#ifndef SHUT_RDWR
+#define SHUT_RDWR 2
+#endif
+
 #endif // !__GRACHT_SOCKET_OS_H__
-- 
2.43.0


From d67fce452b808e511c60794cfab35946b91e842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 11/25] fix: never respond to another client that reuses the
 handle of a disconnected one

---
 include/gracht/types.h       |  1 +
 runtime/link/socket/server.c |  3 +++
 runtime/server.c             | 41 +++++++++++++++++++++++-------------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/gracht/types.h b/include/gracht/types.h
index 9b38682..2dab868 100644
--- a/include/gracht/types.h
+++ b/include/gracht/types.h
@@ -112,6 +112,7 @@ struct gracht_message {
     gracht_server_t* server;  // server instance message is received on
     gracht_conn_t    link;    // link message is received on
     gracht_conn_t    client;  // client context on the link
+    uint32_t         session; // connection the message was received on, as client values can be reused
     uint32_t         size;    // size of the payload
     uint32_t         index;   // used internally for payload storage
     uint8_t          payload[]; // payload follows this message header
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 0514fec..a29171d 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -70,6 +70,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
 
     mtx_init(&client->send_lock, mtx_plain);
     client->base.handle = client->socket;
+    client->link        = link->base.connection;
     client->streaming   = 1;
     client->waitbuf.buf = &client->headerbuf[0];
     client->waitbuf.len = GRACHT_MESSAGE_HEADER_SIZE;
@@ -277,6 +278,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     memset(client, 0, sizeof(struct socket_link_client));
     client->base.handle = message->client;
     client->socket      = link->base.connection;
+    client->link        = link->base.connection;
     client->streaming   = 0;
     mtx_init(&client->send_lock, mtx_plain);
 
@@ -481,6 +483,7 @@ static int socket_link_accept(
         return -1;
     }
     client->base.handle = client->socket;
+    client->link        = link->base.connection;
     client->streaming   = 1;
     mtx_init(&client->send_lock, mtx_plain);
     
diff --git a/runtime/server.c b/runtime/server.c
index e0f825c..9bf82cb 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -42,6 +42,7 @@
 
 struct client_wrapper {
     gracht_conn_t                handle;
+    uint32_t                     session;
     struct gracht_link*          link;
     struct gracht_server_client* client;
 };
@@ -83,6 +84,7 @@ typedef struct gracht_server {
     struct rwlock                  protocols_lock;
     gr_hashtable_t                 clients;
     struct rwlock                  clients_lock;
+    uint32_t                       current_session;
     struct link_table              link_table;
 } gracht_server_t;
 
@@ -288,6 +290,7 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
     rwlock_w_lock(&server->clients_lock);
     gr_hashtable_set(&server->clients, &(struct client_wrapper) { 
         .handle = client->handle,
+        .session = ++server->current_session,
         .link = link,
         .client = client
     });
@@ -383,6 +386,7 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
             break;
         }
 
+        message->session = 0;
         server->ops->dispatch(server, message);
     }
     
@@ -440,6 +444,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
                 break;
             }
 
+            message->session = entry->session;
             server->ops->dispatch(server, message);
         }
         rwlock_r_unlock(&server->clients_lock);
@@ -661,7 +666,9 @@ static void put_buffer(struct gracht_server* server, gracht_buffer_t* buffer)
 
 int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t* message)
 {
+    struct gracht_server*  server;
     struct client_wrapper* entry;
+    struct gracht_link*    link;
     int                    status;
 
     if (!messageContext || !message) {
@@ -669,31 +676,33 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         errno = EINVAL;
         return -1;
     }
+    server = messageContext->server;
 
     // update message header
     GB_MSG_ID_0(message)  = *((uint32_t*)&messageContext->payload[messageContext->index]);
     GB_MSG_LEN_0(message) = message->index;
 
-    rwlock_r_lock(&messageContext->server->clients_lock);
-    entry = gr_hashtable_get(&messageContext->server->clients, &(struct client_wrapper){ .handle = messageContext->client });
-    if (!entry) {
-        struct gracht_link* link;
-        
-        rwlock_r_unlock(&messageContext->server->clients_lock);
-        link = get_link_by_conn(messageContext->server, messageContext->link);
-        if (!link) {
-            errno = ENODEV;
-            return -1;
-        }
+    link = get_link_by_conn(server, messageContext->link);
+    if (link && link->type == gracht_link_packet_based) {
+        // the message itself carries the address of connection-less clients
         status = link->ops.server.send(link, messageContext, message);
     }
     else {
-        status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
-        rwlock_r_unlock(&messageContext->server->clients_lock);
+        // the client may have disconnected since, and the handle can now belong to another client
+        rwlock_r_lock(&server->clients_lock);
+        entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = messageContext->client });
+        if (entry && entry->session == messageContext->session) {
+            status = entry->link->ops.server.send_client(entry->client, message, GRACHT_MESSAGE_BLOCK);
+        }
+        else {
+            errno  = ENODEV;
+            status = -1;
+        }
+        rwlock_r_unlock(&server->clients_lock);
     }
 
     // return the borrowed buffer to the stack
-    put_buffer(messageContext->server, message);
+    put_buffer(server, message);
     return status;
 }
 
@@ -714,6 +723,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        put_buffer(server, message);
         errno = ENOENT;
         return -1;
     }
@@ -902,7 +912,8 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
             return;
         }
 
-        newEntry.handle = message->client;
+        newEntry.handle  = message->client;
+        newEntry.session = 0;
 
         // this does not have to be serialized with the above read lock due to the fact that all
         // write-locks are only acquired by this thread. So any changes made are only the ones we make
-- 
2.43.0


From 680f39d7bb3194e5b872a2821885d63e01dc354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 12/25] fix: let packet links respond to, and send events to,
 the right address

---
 runtime/link/socket/client.c | 45 +++++++++++++-------
 runtime/link/socket/server.c | 79 ++++++++++++++++++++++++------------
 2 files changed, 85 insertions(+), 39 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..952cb70 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -97,27 +97,30 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
 static int socket_link_recv_packet(struct gracht_link_socket* link, struct gracht_buffer* message, unsigned int flags)
 {
-    socklen_t addrlen = link->address_length;
-    char*     base    = &message->data[addrlen];
-    size_t    len     = message->index - addrlen;
-    long      bytes_read;
-    
-    message->index = addrlen;
+    long bytes_read;
     
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
-    bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
-        (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
-        if (bytes_read == 0) {
-            errno = (ENODATA);
+    flags &= ~MSG_WAITALL;
+    while (1) {
+        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, flags);
+        if (bytes_read < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            return -1;
         }
-        else {
-            errno = (EPIPE);
+
+        // skip everything that is not a complete message
+        if (bytes_read >= GRACHT_MESSAGE_HEADER_SIZE &&
+            *((uint32_t*)&message->data[MSG_INDEX_LEN]) == (uint32_t)bytes_read) {
+            break;
         }
-        return -1;
+        GRWARNING(GRSTR("link_client: skipping malformed packet"));
     }
+
+    message->index = 0;
     return 0;
 }
 
@@ -131,6 +134,20 @@ static gracht_conn_t socket_link_connect(struct gracht_link_socket* link)
         return -1;
     }
     
+#ifdef __linux__
+    // unix sockets have no address of their own unless bound, and without an
+    // address there is no way for the server to respond
+    if (type == SOCK_DGRAM && link->domain == AF_UNIX) {
+        sa_family_t family = AF_UNIX;
+        if (bind(link->base.connection, (const struct sockaddr*)&family, sizeof(family))) {
+            GRERROR(GRSTR("client_link: failed to bind socket"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return GRACHT_CONN_INVALID;
+        }
+    }
+#endif
+
     int status = connect(link->base.connection, 
         (const struct sockaddr*)&link->address,
         link->address_length);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index a29171d..e22c89c 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -35,6 +35,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -103,6 +104,20 @@ static unsigned int get_socket_flags(unsigned int flags)
     return socketFlags;
 }
 
+static int send_packet_to(gracht_conn_t socket, struct gracht_buffer* message, unsigned int socketFlags,
+    const struct sockaddr* address, socklen_t addressLength)
+{
+    intmax_t bytesWritten;
+
+    do {
+        bytesWritten = sendto(socket, &message->data[0], message->index, socketFlags, address, addressLength);
+    } while (bytesWritten < 0 && errno == EINTR);
+    if (bytesWritten != message->index) {
+        return -1;
+    }
+    return 0;
+}
+
 static int socket_link_send_client(struct socket_link_client* client,
     struct gracht_buffer* message, unsigned int flags)
 {
@@ -110,6 +125,12 @@ static int socket_link_send_client(struct socket_link_client* client,
     uint32_t     offset      = 0;
     int          status      = 0;
 
+    // connection-less clients share the socket of the link
+    if (!client->streaming) {
+        return send_packet_to(client->socket, message, socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+    }
+
     // messages can be sent from multiple threads, they must not be mixed up in the stream
     mtx_lock(&client->send_lock);
 
@@ -262,7 +283,6 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     struct socket_link_client** clientOut)
 {
     struct socket_link_client* client;
-    struct sockaddr_storage*   address;
     
     if (!link || !message || !clientOut) {
         errno = (EINVAL);
@@ -282,8 +302,9 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     client->streaming   = 0;
     mtx_init(&client->send_lock, mtx_plain);
 
-    address = (struct sockaddr_storage*)&message->payload[0];
-    memcpy(&client->address, address, (size_t)link->address_length);
+    // the payload starts with the address of the sender
+    memcpy(&client->address, &message->payload[0], (size_t)message->index);
+    client->address_length = (socklen_t)message->index;
     
     *clientOut = client;
     return 0;
@@ -291,7 +312,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
@@ -304,8 +325,8 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->socket);
     }
-    status = close(client->base.handle);
     mtx_destroy(&client->send_lock);
     free(client);
     return status;
@@ -505,9 +526,10 @@ static int socket_link_accept(
 static int socket_link_recv_packet(struct gracht_link_socket* link, 
     struct gracht_message* context, unsigned int flags)
 {
-    socklen_t    addrlen     = link->address_length;
-    char*        base        = (char*)&context->payload[addrlen];
-    size_t       len         = context->index - addrlen;
+    struct sockaddr_storage address;
+    socklen_t    addrlen     = sizeof(struct sockaddr_storage);
+    char*        base        = (char*)&context->payload[sizeof(struct sockaddr_storage)];
+    size_t       len         = context->index - sizeof(struct sockaddr_storage);
     unsigned int socketFlags = get_socket_flags(flags);
     uint32_t     addressCrc;
 
@@ -531,8 +553,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 
     // store initial bytes received (header) and store the address
     memcpy(base, &link->buffer[0], overlappedLength);
-    memcpy(&context->payload[0], &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
-    // link->recvLength should == link->address_length
+    memcpy(&address, &link->buffer[GRACHT_MESSAGE_HEADER_SIZE], link->recvLength);
+    addrlen = link->recvLength;
 
     // read the rest of the message
     GRTRACE(GRSTR("socket_link_recv_packet reading rest of message"));
@@ -546,16 +568,28 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 #else
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
-    intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
-        socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
-    if (bytesRead <= 0) {
-        if (bytesRead == 0) {
-            errno = (ENODATA);
+    intmax_t bytesRead;
+    
+    while (1) {
+        addrlen   = sizeof(struct sockaddr_storage);
+        bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
+            socketFlags, (struct sockaddr*)&address, &addrlen);
+        if (bytesRead < 0) {
+            return -1;
         }
-        return -1;
+
+        // skip everything that is not a complete message
+        if (bytesRead >= GRACHT_MESSAGE_HEADER_SIZE && *((uint32_t*)&base[MSG_INDEX_LEN]) == (uint32_t)bytesRead) {
+            break;
+        }
+        GRWARNING(GRSTR("socket_link_recv_packet skipping malformed packet"));
     }
 #endif
 
+    // store the address in front of the message, its actual size may vary
+    memcpy(&context->payload[0], &address, (size_t)addrlen);
+    memmove(&context->payload[addrlen], base, (size_t)bytesRead);
+
     addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
     GRTRACE(GRSTR("socket_link_recv_packet read [%u/%u] addr bytes, %p"),
             addrlen, link->address_length, &context->payload[0]);
@@ -584,20 +618,15 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
-    long bytesWritten;
-    (void)messageContext;
-
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
-    if (bytesWritten != message->index) {
-        GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
-        if (bytesWritten == -1) {
-            GRERROR(GRSTR("link_server: errno %i"), errno);
-        }
+    // the payload starts with the address of the sender
+    if (send_packet_to(link->base.connection, message, MSG_NOSIGNAL,
+            (const struct sockaddr*)&messageContext->payload[0], (socklen_t)messageContext->index)) {
+        GRERROR(GRSTR("link_server: failed to respond, errno %i"), errno);
         return -1;
     }
     return 0;
-- 
2.43.0


From bf8596697d5ee79e824761028d0e0bbfc39623e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:00 +0000
Subject: [PATCH 13/25] fix: deliver the unknown protocol error to the sender
 of the request

---
 include/control.h |  2 +-
 runtime/control.c | 10 ++++++----
 runtime/server.c  |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/control.h b/include/control.h
index 11dc0a2..ebc9c27 100644
--- a/include/control.h
+++ b/include/control.h
@@ -43,7 +43,7 @@ struct gracht_transfer_complete_event {
 void gracht_control_subscribe_invocation(const struct gracht_message* message, const uint8_t protocol);
 void gracht_control_unsubscribe_invocation(const struct gracht_message* message, const uint8_t protocol);
 
-int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn_t client, const uint32_t messageId, const int errorCode);
+int gracht_control_event_error_single(struct gracht_message* message, const uint32_t messageId, const int errorCode);
 int gracht_control_event_error_all(gracht_server_t* server, const uint32_t messageId, const int errorCode);
 
 // Client part of the internal control protocol
diff --git a/runtime/control.c b/runtime/control.c
index 0b1d22a..2c1ce6f 100644
--- a/runtime/control.c
+++ b/runtime/control.c
@@ -60,7 +60,7 @@ gracht_protocol_t gracht_control_client_protocol = GRACHT_PROTOCOL_INIT(0, "grac
 gracht_protocol_t gracht_control_server_protocol = GRACHT_PROTOCOL_INIT(0, "gracht_control", 2, server_control_callbacks);
 
 extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
-extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
+extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
 extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);
 
 void __gracht_error_internal(gracht_client_t* __client, gracht_buffer_t* __buffer)
@@ -86,12 +86,12 @@ void __gracht_unsubscribe_internal(struct gracht_message* __message, gracht_buff
     gracht_control_unsubscribe_invocation(__message, __protocol);
 }
 
-int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn_t client, const uint32_t messageId, const int errorCode)
+int gracht_control_event_error_single(struct gracht_message* message, const uint32_t messageId, const int errorCode)
 {
     gracht_buffer_t __buffer;
     int             __status;
 
-    __status = gracht_server_get_buffer(server, &__buffer);
+    __status = gracht_server_get_buffer(message->server, &__buffer);
     if (__status) {
         return __status;
     }
@@ -103,7 +103,9 @@ int gracht_control_event_error_single(gracht_server_t* server, const gracht_conn
     serialize_uint8_t(&__buffer, MESSAGE_FLAG_EVENT);
     serialize_uint32_t(&__buffer, messageId);
     serialize_int(&__buffer, errorCode);
-    __status = gracht_server_send_event(server, client, &__buffer, 0);
+
+    // this completes the request, so it must reach the sender like any other response
+    __status = gracht_server_respond(message, &__buffer);
     return __status;
 }
 
diff --git a/runtime/server.c b/runtime/server.c
index 9bf82cb..e739c70 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -551,7 +551,7 @@ void server_invoke_action(struct gracht_server* server, struct gracht_message* r
     rwlock_r_unlock(&server->protocols_lock);
     if (!function) {
         GRWARNING(GRSTR("server_invoke_action failed to invoke server action"));
-        gracht_control_event_error_single(server, recvMessage->client, messageId, ENOENT);
+        gracht_control_event_error_single(recvMessage, messageId, ENOENT);
         return;
     }
 
-- 
2.43.0


From 2825cdfcb35338ea5c73d9c5cdae7bd89be987ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 14/25] fix: keep the client in sync with fragmented,
 interrupted and malformed streams

---
 runtime/link/socket/client.c | 82 ++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 952cb70..4815de6 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -32,14 +32,43 @@
 static int socket_link_send_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message)
 {
-    long byteCount;
+    uint32_t offset = 0;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
-    if ((uint32_t)byteCount != message->index) {
-        GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
-              byteCount, message->index, errno);
-        errno = (EPIPE);
-        return -1;
+    while (offset < message->index) {
+        long byteCount = (long)send(link->base.connection, &message->data[offset], message->index - offset, MSG_NOSIGNAL);
+        if (byteCount < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+
+            GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u (%i)"),
+                  offset, message->index, errno);
+            if (offset) {
+                // the stream can't be used after a partial message
+                shutdown(link->base.connection, SHUT_RDWR);
+            }
+            errno = (EPIPE);
+            return -1;
+        }
+        offset += (uint32_t)byteCount;
+    }
+    return 0;
+}
+
+// receive all of <length>, this continues after interruptions and short reads
+static int recv_all(gracht_conn_t socket, char* buffer, size_t length)
+{
+    size_t offset = 0;
+
+    while (offset < length) {
+        long bytesRead = (long)recv(socket, buffer + offset, length - offset, MSG_WAITALL);
+        if (bytesRead < 0 && errno == EINTR) {
+            continue;
+        }
+        if (bytesRead <= 0) {
+            return -1;
+        }
+        offset += (size_t)bytesRead;
     }
     return 0;
 }
@@ -47,29 +76,46 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
+    uint32_t messageLength;
     uint32_t missingData;
+    long     bytesRead;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
-    bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    do {
+        bytesRead = (long)recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    } while (bytesRead < 0 && errno == EINTR);
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = (ENODATA);
         }
-        else {
+        else if (errno != EAGAIN && errno != EWOULDBLOCK) {
             errno = (EPIPE);
         }
         return -1;
     }
     
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    // once we've received the start of a message, then the rest of it must follow
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE &&
+        recv_all(link->base.connection, &message->data[bytesRead], GRACHT_MESSAGE_HEADER_SIZE - (size_t)bytesRead)) {
+        errno = (EPIPE);
+        return -1;
+    }
+
+    messageLength = *((uint32_t*)&message->data[MSG_INDEX_LEN]);
+    if (messageLength < GRACHT_MESSAGE_HEADER_SIZE || messageLength > message->index) {
+        // there is no way to find the next message in the stream
+        GRERROR(GRSTR("[gracht_connection_recv_stream] invalid message length %u"), messageLength);
+        shutdown(link->base.connection, SHUT_RDWR);
+        errno = (EPIPE);
+        return -1;
+    }
+
+    missingData = messageLength - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
-        bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
-        if (bytesRead != missingData) {
+        if (recv_all(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData)) {
             // do not process incomplete requests
-            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u, expected %u)"),
-                  (uint32_t)bytesRead, missingData);
+            GRERROR(GRSTR("[gracht_connection_recv_message] did not read full amount of bytes (%u)"), missingData);
             errno = (EPIPE);
             return -1; 
         }
@@ -85,7 +131,9 @@ static int socket_link_send_packet(struct gracht_link_socket* link, struct grach
 
     GRTRACE(GRSTR("link_client: send message (%u)"), message->index);
 
-    byteCount = send(link->base.connection, &message->data[0], message->index, 0);
+    do {
+        byteCount = send(link->base.connection, &message->data[0], message->index, MSG_NOSIGNAL);
+    } while (byteCount < 0 && errno == EINTR);
     if (byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u"),
               (uint32_t)byteCount, message->index);
-- 
2.43.0


From b24a3f229d5a845cd6867f6bbe87f0f71a6911e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:03 +0000
Subject: [PATCH 15/25] fix: let waits and awaits return exactly when their
 messages are executed

---
 runtime/client.c | 449 ++++++++++++++++-------------------------------
 1 file changed, 156 insertions(+), 293 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..cee1d59 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -39,32 +39,16 @@
 // On recieving:
 // N+M buffers. One for each event received and for each call in air
 
-struct gracht_message_awaiter {
-    uint32_t      id;
-    unsigned int  flags;
-    cnd_t         event;
-    mtx_t         mutex;
-    int           current_count;
-    int           count;
-};
-
-struct gracht_message_awaiter_entry {
-    uint32_t                       id;
-    struct gracht_message_awaiter* awaiter;
-};
-
 // descriptor | message | params
 struct gracht_message_descriptor {
     uint32_t        id;
     int             status;
-    uint32_t        awaiter_id;
     gracht_buffer_t buffer;
 };
 
 typedef struct gracht_client {
     gracht_conn_t        iod;
     uint32_t             current_message_id;
-    uint32_t             current_awaiter_id;
     struct gracht_link*  link;
     struct gracht_arena* arena;
     int                  max_message_size;
@@ -74,9 +58,9 @@ typedef struct gracht_client {
     gr_hashtable_t       protocols;
     gr_hashtable_t       messages;
     mtx_t                messages_lock;
-    gr_hashtable_t       awaiters;
-    mtx_t                awaiters_lock;
-    mtx_t                wait_lock;
+    cnd_t                messages_event; // the state of messages, listening or disconnected changed
+    bool                 listening;      // a thread is currently receiving from the link
+    bool                 disconnected;   // the link can't be received from anymore
 } gracht_client_t;
 
 #define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
@@ -89,12 +73,8 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
-static uint32_t get_awaiter_id(gracht_client_t*);
-static void     mark_awaiters(gracht_client_t*, uint32_t);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
-static uint64_t awaiter_hash(const void* element);
-static int      awaiter_cmp(const void* element1, const void* element2);
 
 static int __add_message(
         gracht_client_t*                   client,
@@ -181,7 +161,9 @@ static int __invoke_action(gracht_client_t* client, struct gracht_buffer* messag
     uint8_t action   = GB_MSG_AID(message);
     GRTRACE(GRSTR("__invoke_action()"));
 
+    mtx_lock(&client->messages_lock);
     function = get_protocol_action(&client->protocols, protocol, action);
+    mtx_unlock(&client->messages_lock);
     if (!function) {
         return -1;
     }
@@ -196,7 +178,6 @@ static int __handle_response(
         struct gracht_buffer* buffer)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     GRTRACE(GRSTR("__handle_response()"));
 
     mtx_lock(&client->messages_lock);
@@ -206,7 +187,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -217,194 +198,164 @@ static int __handle_response(
     descriptor->buffer.data  = buffer->data;
     descriptor->buffer.index = buffer->index + GRACHT_MESSAGE_HEADER_SIZE;
     descriptor->status = GRACHT_MESSAGE_COMPLETED;
-    awaiterID = descriptor->awaiter_id;
+    cnd_broadcast(&client->messages_event);
     mtx_unlock(&client->messages_lock);
-
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+static void __stop_listening(gracht_client_t* client, bool disconnected)
 {
-    struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
-    uint8_t              messageFlags;
-    int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
-
-    // We must acquire hold of the client mutex as the mutex must be thread-safe in case
-    // of multiple calling threads. Only one thread can listen for client events at a time, and that
-    // means all other threads must queue up and wait for the thread that listens currently.
-listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
-
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
+    mtx_lock(&client->messages_lock);
+    client->listening = false;
+    if (disconnected) {
+        client->disconnected = true;
     }
+    cnd_broadcast(&client->messages_event);
+    mtx_unlock(&client->messages_lock);
+}
 
-    if (mtx_trylock(&client->wait_lock) != thrd_success) {
-        if (!(flags & GRACHT_MESSAGE_BLOCK)) {
-            errno = EBUSY;
-            return -1;
-        }
-
-        if (mtx_lock(&client->wait_lock) != thrd_success) {
-            return -1;
-        }
-    }
+// Receives and handles a single message. Only one thread can listen for messages at a time, so this must
+// be called by the thread that has set the listening member, which is cleared again by this function.
+static int __listen(gracht_client_t* client, unsigned int flags)
+{
+    struct gracht_buffer buffer;
+    uint8_t              messageFlags;
+    int                  status;
 
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
-    buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
+    buffer.data  = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
-
     if (!buffer.data) {
-        mtx_unlock(&client->wait_lock);
+        __stop_listening(client, false);
         // out of memory. client should handle messages
         errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
+        return -1;
     }
 
     status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
     if (status) {
-        // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
+        int error = errno;
+        gracht_arena_free(client->arena, buffer.data, 0);
+        __stop_listening(client, client->link->type == gracht_link_stream_based &&
+            error != EAGAIN && error != EWOULDBLOCK);
+        errno = error;
+        return -1;
     }
 
     messageFlags = GB_MSG_FLG(&buffer);
-
-    // If the message is not an event, then do not invoke any actions. In any case if a context is provided
-    // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
     GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
             messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
-    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
-    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
-        status = __handle_response(client, &buffer);
-        if (status) {
-            goto listenForMessage;
-        }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+    // Everything that completes messages must be handled before another thread is allowed to
+    // listen, otherwise that thread could end up listening for a message that is already completed.
+    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+        if (!__handle_response(client, &buffer)) {
+            // do not free the buffer, freeing is now handled by the awaiter
+            buffer.data = NULL;
+        }
+    } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT && GB_MSG_SID(&buffer) == SERVICE_GRACHT_CONTROL_ID) {
+        __invoke_action(client, &buffer);
+        messageFlags = MESSAGE_FLAG_RESPONSE; // handled
+    }
+    __stop_listening(client, false);
 
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+    if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
+        __invoke_action(client, &buffer);
     }
 
-listenOrExit:
     if (buffer.data) {
         gracht_arena_free(client->arena, buffer.data, 0);
     }
-
-    if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
-        }
-    }
-    return status;
+    return 0;
 }
 
-static struct gracht_message_awaiter* __awaiter_new(
-        gracht_client_t* client,
-        unsigned int     flags,
-        int              contextCount)
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
 {
-    struct gracht_message_awaiter* awaiter;
+    int status = 0;
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
 
-    awaiter = malloc(sizeof(struct gracht_message_awaiter));
-    if (!awaiter) {
-        return NULL;
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
     }
 
-    awaiter->id            = get_awaiter_id(client);
-    awaiter->flags         = flags;
-    awaiter->count         = contextCount;
-    awaiter->current_count = 0;
-    cnd_init(&awaiter->event);
-    mtx_init(&awaiter->mutex, mtx_plain);
-    return awaiter;
-}
+    // We must be thread-safe in case of multiple calling threads. Only one thread can listen for
+    // messages at a time, and that means all other threads must queue up and wait for the thread
+    // that listens currently.
+    mtx_lock(&client->messages_lock);
+    while (1) {
+        // In case a context was provided the meaning is that we should wait for that specific message
+        if (context) {
+            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                    &client->messages,
+                    &(struct gracht_message_descriptor) {
+                            .id = context->message_id
+                    }
+            );
+            if (!descriptor) {
+                errno = ENOENT;
+                status = -1;
+                break;
+            }
+            if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
+                break;
+            }
+        }
 
-static inline void __await_add(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_set(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-        .id = awaiter->id,
-        .awaiter = awaiter
-    });
-    mtx_unlock(&client->awaiters_lock);
-}
+        if (client->disconnected) {
+            errno = EPIPE;
+            status = -1;
+            break;
+        }
 
-static inline void __await_remove(
-        gracht_client_t*               client,
-        struct gracht_message_awaiter* awaiter)
-{
-    mtx_lock(&client->awaiters_lock);
-    gr_hashtable_remove(&client->awaiters, &(struct gracht_message_awaiter_entry) {
-            .id = awaiter->id
-    });
-    mtx_unlock(&client->awaiters_lock);
+        if (client->listening) {
+            if (!(flags & GRACHT_MESSAGE_BLOCK)) {
+                errno = EBUSY;
+                status = -1;
+                break;
+            }
+            cnd_wait(&client->messages_event, &client->messages_lock);
+            continue;
+        }
+
+        client->listening = true;
+        mtx_unlock(&client->messages_lock);
+        status = __listen(client, flags);
+        if (status || !context) {
+            return status;
+        }
+        mtx_lock(&client->messages_lock);
+    }
+    mtx_unlock(&client->messages_lock);
+    return status;
 }
 
-static inline void __await_loop(
+// must be called with the messages lock held
+static bool __await_completed(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
+        int                             contextCount,
+        unsigned int                    flags)
 {
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    int executed = 0;
 
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
+    for (int i = 0; i < contextCount; i++) {
+        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = contexts[i]->message_id
+                }
+        );
+
+        // if we were waiting for a non-existant message, in theory it could
+        // have dissappeared?
+        if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            executed++;
         }
-        mtx_unlock(&client->messages_lock);
     }
+    return (flags & GRACHT_AWAIT_ALL) ? executed == contextCount : executed > 0;
 }
 
 int gracht_client_await_multiple(
@@ -413,77 +364,36 @@ int gracht_client_await_multiple(
         int                             contextCount,
         unsigned int                    flags)
 {
-    struct gracht_message_awaiter* awaiter;
-    int                            i;
-    bool                           bail;
+    int status = 0;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
-    if (!client || !contexts || !contextCount) {
+    if (!client || !contexts || contextCount <= 0) {
         errno = (EINVAL);
         return -1;
     }
 
-    // create the awaiter
-    awaiter = __awaiter_new(client, flags, contextCount);
-    if (awaiter == NULL) {
-        return -1;
-    }
-
-    // first step is to get a status of all messages we are awaiting
     mtx_lock(&client->messages_lock);
-    for (i = 0; i < contextCount; i++) {
-        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                    .id = contexts[i]->message_id
-                }
-        );
-        if (!descriptor) {
-            // we were waiting for a non-existant message, in theory it could
-            // have dissappeared?
-            awaiter->current_count++;
-            continue;
+    while (!__await_completed(client, contexts, contextCount, flags)) {
+        if (status || client->disconnected) {
+            errno = EPIPE;
+            status = -1;
+            break;
         }
 
-        descriptor->awaiter_id = awaiter->id;
-        if (MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-            awaiter->current_count++;
+        // in async mode we expect another thread to do the event pumping, otherwise we are a
+        // single threaded application (maybe) and we should also handle the pumping of messages,
+        // unless another thread is already doing so
+        if ((flags & GRACHT_AWAIT_ASYNC) || client->listening) {
+            cnd_wait(&client->messages_event, &client->messages_lock);
+        } else {
+            client->listening = true;
+            mtx_unlock(&client->messages_lock);
+            status = __listen(client, GRACHT_MESSAGE_BLOCK);
+            mtx_lock(&client->messages_lock);
         }
     }
-
-    // calculate here whether we can bail early, so we can skip time
-    // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
-
-    // add the awaiter while we hold the message lock to avoid a data-race
-    // between those
-    if (!bail) {
-        __await_add(client, awaiter);
-    }
     mtx_unlock(&client->messages_lock);
-
-    // early bail?
-    if (bail) {
-        goto cleanup;
-    }
-    
-    // in async bail mode we expect another thread to do the event pumping,
-    // and thus we should just use the awaiter
-    if (flags & GRACHT_AWAIT_ASYNC) {
-        mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
-        mtx_unlock(&awaiter->mutex);
-    } else {
-        // otherwise we are a single threaded application (maybe) and we should also
-        // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
-    }
-    __await_remove(client, awaiter);
-
-cleanup:
-    // cleanup the awaiter
-    free(awaiter);
-    return 0;
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
@@ -521,7 +431,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -536,14 +446,17 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
-    mtx_unlock(&client->messages_lock);
 
-    // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
-        }
+    // keep the message around untill it has been executed
+    if (MESSAGE_STATUS_EXECUTED(status)) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
     }
+    mtx_unlock(&client->messages_lock);
     return status;
 }
 
@@ -583,16 +496,13 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     
     memset(client, 0, sizeof(gracht_client_t));
     mtx_init(&client->send_buffer_lock, mtx_plain);
-    mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
-    mtx_init(&client->awaiters_lock, mtx_plain);
+    cnd_init(&client->messages_event);
     gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
     gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
 
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
-    client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
     // handle memory sizes
@@ -677,13 +587,11 @@ void gracht_client_shutdown(gracht_client_t* client)
         gracht_arena_destroy(client->arena);
     }
     
-    gr_hashtable_destroy(&client->awaiters);
     gr_hashtable_destroy(&client->messages);
     gr_hashtable_destroy(&client->protocols);
-    mtx_destroy(&client->wait_lock);
     mtx_destroy(&client->send_buffer_lock);
     mtx_destroy(&client->messages_lock);
-    mtx_destroy(&client->awaiters_lock);
+    cnd_destroy(&client->messages_event);
     free(client);
 }
 
@@ -703,7 +611,9 @@ int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t*
         return -1;
     }
     
+    mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->protocols, protocol);
+    mtx_unlock(&client->messages_lock);
     return 0;
 }
 
@@ -714,34 +624,9 @@ void gracht_client_unregister_protocol(gracht_client_t* client, gracht_protocol_
         return;
     }
     
+    mtx_lock(&client->messages_lock);
     gr_hashtable_remove(&client->protocols, protocol);
-}
-
-static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
-{
-    struct gracht_message_awaiter_entry* entry;
-    struct gracht_message_awaiter*       awaiter;
-
-    mtx_lock(&client->awaiters_lock);
-    entry = gr_hashtable_get(
-            &client->awaiters,
-            &(struct gracht_message_awaiter_entry) { .id = awaiterID }
-    );
-    if (!entry) {
-        mtx_unlock(&client->awaiters_lock);
-        return;
-    }
-    awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
-
-    awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
-        cnd_signal(&awaiter->event);
-    }
+    mtx_unlock(&client->messages_lock);
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
@@ -749,15 +634,9 @@ static uint32_t get_message_id(gracht_client_t* client)
     return client->current_message_id++;
 }
 
-static uint32_t get_awaiter_id(gracht_client_t* client)
-{
-    return client->current_awaiter_id++;
-}
-
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
 {
     struct gracht_message_descriptor* descriptor;
-    uint32_t                          awaiterID;
     (void)errorCode;
 
     mtx_lock(&client->messages_lock);
@@ -767,7 +646,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
@@ -776,11 +655,8 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     
     // set status
     descriptor->status = GRACHT_MESSAGE_ERROR;
-    awaiterID = descriptor->awaiter_id;
+    cnd_broadcast(&client->messages_event);
     mtx_unlock(&client->messages_lock);
-    
-    // iterate awaiters and mark those that contain this message
-    mark_awaiters(client, awaiterID);
 }
 
 static uint64_t message_hash(const void* element)
@@ -795,16 +671,3 @@ static int message_cmp(const void* element1, const void* element2)
     const struct gracht_message_descriptor* message2 = element2;
     return message1->id == message2->id ? 0 : 1;
 }
-
-static uint64_t awaiter_hash(const void* element)
-{
-    const struct gracht_message_awaiter_entry* awaiter = element;
-    return awaiter->id;
-}
-
-static int awaiter_cmp(const void* element1, const void* element2)
-{
-    const struct gracht_message_awaiter_entry* awaiter1 = element1;
-    const struct gracht_message_awaiter_entry* awaiter2 = element2;
-    return awaiter1->id == awaiter2->id ? 0 : 1;
-}
-- 
2.43.0


From 6fb08fe7f6e3af356214042265c77c1418f9dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:03 +0000
Subject: [PATCH 16/25] fix: receive responses even when the client arena is
 used up

---
 include/arena.h      |  8 +++++++
 include/thread_api.h |  7 ++++++
 runtime/arena.c      |  8 +++++++
 runtime/client.c     | 53 ++++++++++++++++++++++++++++++++++++--------
 4 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/arena.h b/include/arena.h
index 0fbceee..77b789f 100644
--- a/include/arena.h
+++ b/include/arena.h
@@ -60,4 +60,12 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
  */
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
+/**
+ * Checks whether memory was allocated from the given arena
+ * @param arena  A pointer to the arena
+ * @param memory The memory to check
+ * @return       Non-zero if the memory belongs to the arena
+ */
+int gracht_arena_contains(struct gracht_arena* arena, void* memory);
+
 #endif // !__GRACHT_ARENA_H__
diff --git a/include/thread_api.h b/include/thread_api.h
index e50074a..fca301e 100644
--- a/include/thread_api.h
+++ b/include/thread_api.h
@@ -56,6 +56,7 @@ typedef pthread_t thrd_t;
 #define cnd_destroy   pthread_cond_destroy
 #define cnd_wait      pthread_cond_wait
 #define cnd_signal    pthread_cond_signal
+#define cnd_broadcast pthread_cond_broadcast
 
 #define thrd_join(thr, ret)          pthread_join(thr, (void**)ret)
 #define thrd_create(thrp, func, arg) pthread_create(thrp, NULL, func, arg)
@@ -109,6 +110,12 @@ static inline int cnd_signal(cnd_t* cnd)
     return thrd_success;
 }
 
+static inline int cnd_broadcast(cnd_t* cnd)
+{
+    WakeAllConditionVariable(cnd);
+    return thrd_success;
+}
+
 static inline int cnd_wait(cnd_t* cnd, mtx_t* mtx)
 {
     BOOL status = SleepConditionVariableCS(cnd, mtx, INFINITE);
diff --git a/runtime/arena.c b/runtime/arena.c
index 1427e2f..a38bdce 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -271,6 +271,14 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     mtx_unlock(&arena->mutex);
 }
 
+int gracht_arena_contains(struct gracht_arena* arena, void* memory)
+{
+    if (!arena || !memory) {
+        return 0;
+    }
+    return (char*)memory >= (char*)arena->base && (char*)memory < (char*)GET_END_HEADER(arena);
+}
+
 //#define __TEST
 #ifdef __TEST
 
diff --git a/runtime/client.c b/runtime/client.c
index cee1d59..8c437c2 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -73,9 +73,34 @@ GRACHTAPI int gracht_client_invoke(gracht_client_t*, struct gracht_message_conte
 
 // static methods
 static uint32_t get_message_id(gracht_client_t*);
+static void     message_enum_free(int index, const void* element, void* userContext);
 static uint64_t message_hash(const void* element);
 static int      message_cmp(const void* element1, const void* element2);
 
+// Messages live in the arena of the client, but messages must be receivable even when it is used up
+// by responses that have not been read yet.
+static void* __allocate_buffer(gracht_client_t* client)
+{
+    void* data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
+    if (!data) {
+        data = malloc(client->max_message_size);
+    }
+    return data;
+}
+
+static void __free_buffer(gracht_client_t* client, void* data)
+{
+    if (!data) {
+        return;
+    }
+
+    if (gracht_arena_contains(client->arena, data)) {
+        gracht_arena_free(client->arena, data, 0);
+    } else {
+        free(data);
+    }
+}
+
 static int __add_message(
         gracht_client_t*                   client,
         struct gracht_message_context*     context)
@@ -222,7 +247,7 @@ static int __listen(gracht_client_t* client, unsigned int flags)
     uint8_t              messageFlags;
     int                  status;
 
-    buffer.data  = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
+    buffer.data  = __allocate_buffer(client);
     buffer.index = client->max_message_size;
     if (!buffer.data) {
         __stop_listening(client, false);
@@ -234,7 +259,7 @@ static int __listen(gracht_client_t* client, unsigned int flags)
     status = client->link->ops.client.recv(client->link, &buffer, flags);
     if (status) {
         int error = errno;
-        gracht_arena_free(client->arena, buffer.data, 0);
+        __free_buffer(client, buffer.data);
         __stop_listening(client, client->link->type == gracht_link_stream_based &&
             error != EAGAIN && error != EWOULDBLOCK);
         errno = error;
@@ -262,9 +287,7 @@ static int __listen(gracht_client_t* client, unsigned int flags)
         __invoke_action(client, &buffer);
     }
 
-    if (buffer.data) {
-        gracht_arena_free(client->arena, buffer.data, 0);
-    }
+    __free_buffer(client, buffer.data);
     return 0;
 }
 
@@ -374,7 +397,11 @@ int gracht_client_await_multiple(
 
     mtx_lock(&client->messages_lock);
     while (!__await_completed(client, contexts, contextCount, flags)) {
-        if (status || client->disconnected) {
+        if (status) {
+            break;
+        }
+
+        if (client->disconnected) {
             errno = EPIPE;
             status = -1;
             break;
@@ -469,9 +496,7 @@ int gracht_client_status_finalize(gracht_client_t* client, struct gracht_buffer*
         return -1;
     }
 
-    if (buffer->data) {
-        gracht_arena_free(client->arena, buffer->data, 0);
-    }
+    __free_buffer(client, buffer->data);
     return 0;
 }
 
@@ -583,6 +608,9 @@ void gracht_client_shutdown(gracht_client_t* client)
         free(client->send_buffer);
     }
 
+    // cleanup the responses that were never read
+    gr_hashtable_enumerate(&client->messages, message_enum_free, client);
+
     if (client->arena) { 
         gracht_arena_destroy(client->arena);
     }
@@ -659,6 +687,13 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
     mtx_unlock(&client->messages_lock);
 }
 
+static void message_enum_free(int index, const void* element, void* userContext)
+{
+    const struct gracht_message_descriptor* message = element;
+    (void)index;
+    __free_buffer(userContext, message->buffer.data);
+}
+
 static uint64_t message_hash(const void* element)
 {
     const struct gracht_message_descriptor* message = element;
-- 
2.43.0


From f9fb2a110d8e00edeca4c28f95b87a2dfa0061fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 17/25] fix: report and undo every failure while creating a
 client, and free its link

---
 runtime/client.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 8c437c2..c1d65d7 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -523,11 +523,15 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     mtx_init(&client->send_buffer_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     cnd_init(&client->messages_event);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-
-    client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
+
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to allocate memory for client tables"));
+        errno = (ENOMEM);
+        goto error;
+    }
+
     client->current_message_id = 1;
 
     // handle memory sizes
@@ -562,11 +566,15 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
 
     // register the control protocol
     gracht_client_register_protocol(client, &gracht_control_client_protocol);
+
+    // the client owns the link only if it could be created
+    client->link = config->link;
     *clientOut = client;
     goto exit;
     
 error:
     gracht_client_shutdown(client);
+    errno = (ENOMEM);
     status = -1;
 
 exit:
@@ -600,7 +608,7 @@ void gracht_client_shutdown(gracht_client_t* client)
         return;
     }
     
-    if (client->iod != GRACHT_CONN_INVALID) {
+    if (client->link) {
         client->link->ops.client.destroy(client->link);
     }
 
-- 
2.43.0


From 3a45e452fb8540c9d3b3cff679871d0bcffb8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:40 +0000
Subject: [PATCH 18/25] fix: do not lose hashtable operations when a resize
 fails

---
 runtime/hashtable.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/runtime/hashtable.c b/runtime/hashtable.c
index 095323c..cbeb8a2 100644
--- a/runtime/hashtable.c
+++ b/runtime/hashtable.c
@@ -35,7 +35,7 @@ struct hashtable_element {
     uint8_t  payload[];
 };
 
-#define SHOULD_GROW(hashtable)        (hashtable->element_count == hashtable->grow_count)
+#define SHOULD_GROW(hashtable)        (hashtable->element_count >= hashtable->grow_count)
 #define SHOULD_SHRINK(hashtable)      (hashtable->element_count == hashtable->shrink_count)
 
 #define GET_ELEMENT_ARRAY(hashtable, elements, index) (struct hashtable_element*)&((uint8_t*)elements)[index * hashtable->element_size]
@@ -117,7 +117,8 @@ void* gr_hashtable_set(gr_hashtable_t* hashtable, const void* element)
     size_t                    index;
 
     // Only resize on entry - that way we avoid any unneccessary resizing
-    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1)) {
+    if (SHOULD_GROW(hashtable) && hashtable_resize(hashtable, hashtable->capacity << 1) &&
+        hashtable->element_count + 1 >= hashtable->capacity) {
         errno = ENOMEM;
         return NULL;
     }
@@ -204,10 +205,10 @@ void* gr_hashtable_remove(gr_hashtable_t* hashtable, const void* key)
         return NULL;
     }
 
-    // Only resize on entry to avoid any unncessary resizes
-    if (SHOULD_SHRINK(hashtable) && hashtable_resize(hashtable, hashtable->capacity >> 1)) {
-        errno = ENOMEM;
-        return NULL;
+    // Only resize on entry to avoid any unncessary resizes. Not being able to shrink
+    // is no reason to fail the removal
+    if (SHOULD_SHRINK(hashtable)) {
+        hashtable_resize(hashtable, hashtable->capacity >> 1);
     }
 
     hash  = hashtable->hash(key);
-- 
2.43.0


From d91da8fcec6ca40f1250c1cd7194b595997d49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 19/25] fix: keep responses on the way readable after a failed
 client send

---
 runtime/link/socket/client.c    | 4 ++--
 runtime/link/socket/socket_os.h | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 4815de6..1cee325 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -44,8 +44,8 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
             GRERROR(GRSTR("link_client: failed to send message, bytes sent: %u, expected: %u (%i)"),
                   offset, message->index, errno);
             if (offset) {
-                // the stream can't be used after a partial message
-                shutdown(link->base.connection, SHUT_RDWR);
+                // nothing can be sent after a partial message, but responses may still be on the way
+                shutdown(link->base.connection, SHUT_WR);
             }
             errno = (EPIPE);
             return -1;
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index c1c950b..36676aa 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -165,6 +165,9 @@ struct gracht_link_socket {
 #define MSG_NOSIGNAL 0
 #endif
 
+#ifndef SHUT_WR
+#define SHUT_WR 1
+#endif
 #ifndef SHUT_RDWR
 #define SHUT_RDWR 2
 #endif
-- 
2.43.0


From 7901c916215864d2d7abfe39bb7df1d573e9b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:20 +0000
Subject: [PATCH 20/25] fix: carry out a shutdown requested before the main
 loop is entered

---
 runtime/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/server.c b/runtime/server.c
index e739c70..9046faf 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -610,7 +610,8 @@ int gracht_server_main_loop(gracht_server_t* server)
         return -1;
     }
 
-    if (server->state != RUNNING) {
+    // a shutdown can already have been requested, in which case it's carried out below
+    if (server->state == SHUTDOWN) {
         errno = EPERM;
         return -1;
     }
-- 
2.43.0


From 3eb9d62dea5d65312bf6d9e484288cb08a169ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:47 +0000
Subject: [PATCH 21/25] fix: copy whole elements when copying variable struct
 members

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..8689ece 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1046,7 +1046,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 21e375f5d09fe25e89b1b9b751c283107f673065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 22/25] fix: generate working code for variants with string and
 scalar entries

---
 generator/languages/langc.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 8689ece..f196f59 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,9 +530,8 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
-        outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(*((uint32_t*)&buffer->data[buffer->index]) + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
@@ -897,15 +896,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             struct_type = service.lookup_struct(entry.get_typename())
             member_name = get_scoped_name(struct_type)
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
-            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+        outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From ba6b234544f3e226d76024773e9e54bb62573b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:21 +0000
Subject: [PATCH 23/25] fix: report a client, call or protocol that could not
 be stored for lack of memory

---
 runtime/client.c | 10 ++++++++++
 runtime/server.c | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/runtime/client.c b/runtime/client.c
index c1d65d7..601dcb8 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -116,6 +116,11 @@ static int __add_message(
 
     mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->messages, &entry);
+    if (!gr_hashtable_get(&client->messages, &entry)) {
+        mtx_unlock(&client->messages_lock);
+        errno = ENOMEM;
+        return -1;
+    }
     mtx_unlock(&client->messages_lock);
     return 0;
 }
@@ -649,6 +654,11 @@ int gracht_client_register_protocol(gracht_client_t* client, gracht_protocol_t*
     
     mtx_lock(&client->messages_lock);
     gr_hashtable_set(&client->protocols, protocol);
+    if (!gr_hashtable_get(&client->protocols, protocol)) {
+        mtx_unlock(&client->messages_lock);
+        errno = ENOMEM;
+        return -1;
+    }
     mtx_unlock(&client->messages_lock);
     return 0;
 }
diff --git a/runtime/server.c b/runtime/server.c
index 9046faf..8bb3951 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -294,6 +294,14 @@ static int handle_connection(struct gracht_server* server, struct gracht_link* l
         .link = link,
         .client = client
     });
+    if (!gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client->handle })) {
+        // there was no memory to remember the client, nothing it sends would ever be read
+        rwlock_w_unlock(&server->clients_lock);
+        GRERROR(GRSTR("gracht_server: failed to store client"));
+        link->ops.server.destroy_client(client, server->set_handle);
+        errno = ENOMEM;
+        return -1;
+    }
     rwlock_w_unlock(&server->clients_lock);
 
     // invoke the new client callback at last
@@ -781,6 +789,11 @@ int gracht_server_register_protocol(gracht_server_t* server, gracht_protocol_t*
         return -1;
     }
     gr_hashtable_set(&server->protocols, protocol);
+    if (!gr_hashtable_get(&server->protocols, protocol)) {
+        rwlock_w_unlock(&server->protocols_lock);
+        errno = ENOMEM;
+        return -1;
+    }
     rwlock_w_unlock(&server->protocols_lock);
     return 0;
 }
@@ -921,6 +934,12 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
         // right now
         rwlock_w_lock(&message->server->clients_lock);
         gr_hashtable_set(&message->server->clients, &newEntry);
+        if (!gr_hashtable_get(&message->server->clients, &newEntry)) {
+            rwlock_w_unlock(&message->server->clients_lock);
+            GRERROR(GRSTR("gracht_control_subscribe_invocation failed to store client"));
+            newEntry.link->ops.server.destroy_client(newEntry.client, message->server->set_handle);
+            return;
+        }
         rwlock_w_unlock(&message->server->clients_lock);
 
         if (message->server->callbacks.clientConnected) {
-- 
2.43.0


From 9885056ea5b99e17f6153c35a2478e45659a2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:48 +0000
Subject: [PATCH 24/25] fix: generated results skip the struct elements the
 caller has no room for

---
 generator/languages/langc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index f196f59..eda7fd7 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -491,6 +491,16 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
         outfile.writeln("}")
+
+        # the elements there is no room for must still be skipped, otherwise everything
+        # that follows them is read from the wrong place
+        outfile.writeln(f"for (uint32_t __i = {name}_count; __i < __count; __i++) {{")
+        outfile.indent_inc()
+        outfile.writeln(f"struct {struct_name} __skipped;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__skipped);")
+        outfile.writeln(f"{struct_name}_destroy(&__skipped);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
         outfile.indent_inc()
-- 
2.43.0


From 1939aac3de30bf80bbdc9a6d66e3e0e89ad6f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:58 +0000
Subject: [PATCH 25/25] fix: generated deserializers release what they built
 when memory runs out for a later array

---
 generator/languages/langc.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index eda7fd7..3aef9f6 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -440,7 +440,7 @@ def write_variable_struct_member_deserializer(service: ServiceObject, member, ou
     outfile.writeln("}")
 
 
-def write_variable_member_deserializer2(service: ServiceObject, member, outfile: CodeWriter):
+def write_variable_member_deserializer2(service: ServiceObject, member, previous, outfile: CodeWriter):
     name = member.get_name()
     typename = member.get_typename()
     c_typename = get_c_typename(service, typename)
@@ -452,7 +452,8 @@ def write_variable_member_deserializer2(service: ServiceObject, member, outfile:
     outfile.writeln(f"{name} = malloc(sizeof({c_typename}) * {name}_count);")
     outfile.writeln(f"if (!{name}) {{")
     outfile.indent_inc()
-    outfile.writeln(f"return;\n")
+    write_deserializer_destroy_members(service, previous, outfile)
+    outfile.writeln("return;")
     outfile.indent_dec()
     outfile.writeln("}")
     outfile.writeln("")
@@ -555,12 +556,14 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
         outfile.writeln(f"out->{prefix}{name} = deserialize_{typename}(buffer);")
 
 
-def write_member_deserializer2(service: ServiceObject, member, outfile: CodeWriter):
+# previous are the members that have been deserialized already, they must be
+# released if there is no memory for this one
+def write_member_deserializer2(service: ServiceObject, member, previous, outfile: CodeWriter):
     name = member.get_name()
     typename = member.get_typename()
 
     if member.get_is_variable():
-        write_variable_member_deserializer2(service, member, outfile)
+        write_variable_member_deserializer2(service, member, previous, outfile)
     elif typename.lower() == "string":
         outfile.writeln(f"{name} = deserialize_string_nocopy(__buffer);")
     elif service.typename_is_struct(typename):
@@ -1260,8 +1263,8 @@ def write_client_deserializer_body(service: ServiceObject, evt: EventObject, out
     write_deserializer_prologue(service, evt.get_params(), outfile)
 
     # write deserializer calls
-    for param in evt.get_params():
-        write_member_deserializer2(service, param, outfile)
+    for index, param in enumerate(evt.get_params()):
+        write_member_deserializer2(service, param, evt.get_params()[:index], outfile)
 
     # write invocation line
     outfile.write(f"{get_client_event_callback_name(service, evt)}(__client")
@@ -1335,8 +1338,8 @@ def write_server_deserializer_body(service: ServiceObject, func: FunctionObject,
     write_deserializer_prologue(service, func.get_request_params(), outfile)
 
     # write deserializer calls
-    for param in func.get_request_params():
-        write_member_deserializer2(service, param, outfile)
+    for index, param in enumerate(func.get_request_params()):
+        write_member_deserializer2(service, param, func.get_request_params()[:index], outfile)
 
     # write invocation line
     outfile.write(f"{get_service_callback_name(service, func)}(__message")
-- 
2.43.0

