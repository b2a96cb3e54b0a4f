From dd005d9b87281ba43cd357ebc8436bf7b2d40660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 01/31] fix: arena walked and wrote past its last block

Block headers were not counted when searching for a free block, and the
header following the last block was read and written although it lies
outside the arena. Sizes that do not fit the 24 bit length were truncated.
---
 runtime/arena.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..7497d56 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -51,6 +51,12 @@ struct gracht_arena {
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
 
+// block lengths are stored in 24 bits
+#define MAX_LENGTH           0x00FFFFFF
+
+// the header following the last block lies outside the arena and must never be touched
+#define IS_HEADER(arena, hdr) ((char*)(hdr) < ((char*)(arena)->base + (arena)->length))
+
 void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size);
 
 int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
@@ -58,11 +64,16 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
 
+    // a larger arena can not be described by a single block
+    if (size > MAX_LENGTH) {
+        size = MAX_LENGTH;
+    }
+
     base = malloc(size);
     if (!base) {
         errno = ENOMEM;
@@ -81,7 +92,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
+    arena->base->length = (uint32_t)(size - HEADER_SIZE);
     arena->base->flags  = 0;
     arena->base->allocated = 0;
 
@@ -119,21 +130,15 @@ static inline void move_header(struct gracht_header* header, long byteCount)
 
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (IS_HEADER(arena, itr)) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
         if (!itr->allocated && itr->length >= size) {
             return itr;
         }
 
-        if (!itr->length) {
-            break;
-        }
-
-        length += itr->length;
         itr = GET_NEXT_HEADER(itr);
     }
     return NULL;
@@ -142,10 +147,10 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > MAX_LENGTH) {
         return NULL;
     }
 
@@ -154,11 +159,15 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
         struct gracht_header* header     = GET_HEADER(allocation);
         struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!IS_HEADER(arena, nextHeader) || nextHeader->allocated || nextHeader->length < correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
 
             allocHeader = find_free_header(arena, correctedSize);
+            if (!allocHeader) {
+                mtx_unlock(&arena->mutex);
+                return NULL;
+            }
             memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
 
             // what consequences could this call have
@@ -205,7 +214,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
@@ -218,7 +227,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
+    if (allocLength != 0 && header->length > allocLength) {
         // must free atleast enough, otherwise skip partial-free operation
         if (allocLength < sizeof(struct gracht_header)) {
             mtx_unlock(&arena->mutex);
@@ -231,7 +240,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (IS_HEADER(arena, nextHeader) && !nextHeader->allocated) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +255,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (IS_HEADER(arena, nextHeader) && !nextHeader->allocated) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From 78f8fbd95e006f63c201c5655a1247cf41b5a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 02/31] fix: buffer stack lost and corrupted elements when
 growing or used concurrently

A push that grew the stack claimed a second slot and left the first one
uninitialised, and the slot index was published before the element was
stored, so a concurrent pop returned garbage. Serialise the operations.
---
 include/stack.h |  9 +++---
 runtime/stack.c | 76 ++++++++++++++++---------------------------------
 2 files changed, 30 insertions(+), 55 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..a4ec414 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -20,13 +20,14 @@
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    mtx_t  mutex;
+    void** elements;
+    size_t index;
+    size_t count;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..6e46804 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,35 +14,28 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Thread-safe stack implementation
  */
 
 #include <errno.h>
 #include "stack.h"
-#include <stdint.h>
 #include <stdlib.h>
-#include <string.h>
-
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
 
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    void** space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(void*) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
     }
 
+    mtx_init(&stack->mutex, mtx_plain);
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
@@ -51,75 +44,56 @@ int stack_construct(struct stack* stack, size_t initialCount)
 
 void stack_destroy(struct stack* stack)
 {
-    if (!stack) {
+    if (!stack || !stack->elements) {
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    free(stack->elements);
+    mtx_destroy(&stack->mutex);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    void** resized = realloc(stack->elements, sizeof(void*) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
-        if (stack_resize(stack, stack->count * 2)) {
-            return;
-        }
-        goto perform_push;
+    mtx_lock(&stack->mutex);
+    if (stack->index == stack->count && stack_resize(stack, stack->count * 2)) {
+        // no room to keep the element for reuse, release it instead
+        mtx_unlock(&stack->mutex);
+        free(pointer);
+        return;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    stack->elements[stack->index++] = pointer;
+    mtx_unlock(&stack->mutex);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->mutex);
+    if (stack->index) {
+        pointer = stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->mutex);
+    return pointer;
 }
-- 
2.43.0


From 73200ac7df59bdbb54bf1c3482d4db256ee27ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 03/31] fix: length field of incoming stream messages was
 trusted

A length below the header size or above the receive buffer made the
following read write past the buffer. The capacity the server reported to
the links also included the message header that precedes the payload.
---
 runtime/link/socket/client.c | 12 +++++++++++-
 runtime/link/socket/server.c | 15 +++++++++++++--
 runtime/server.c             |  4 ++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..b2860f4 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -48,6 +48,8 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
     size_t   bytesRead;
+    uint32_t capacity = message->index;
+    uint32_t length;
     uint32_t missingData;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
@@ -62,7 +64,15 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
         return -1;
     }
     
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    // the length is provided by the peer, it must cover the header and fit the buffer
+    length = *((uint32_t*)&message->data[4]);
+    if (length < GRACHT_MESSAGE_HEADER_SIZE || length > capacity) {
+        GRERROR(GRSTR("[gracht_connection_recv_stream] invalid message length %u"), length);
+        errno = (EPIPE);
+        return -1;
+    }
+
+    missingData = length - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
         bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..bf1d06d 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -122,6 +122,8 @@ static int socket_link_recv_client(struct socket_link_client* client,
 {
     unsigned int socketFlags = get_socket_flags(flags);
     intmax_t     bytesRead;
+    uint32_t     capacity = context->index;
+    uint32_t     length;
     uint32_t     missingData;
     
     GRTRACE(GRSTR("socket_link_recv_client reading message header"));
@@ -165,7 +167,16 @@ static int socket_link_recv_client(struct socket_link_client* client,
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
-    missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+
+    // the length is provided by the peer, it must cover the header and fit the buffer
+    length = *((uint32_t*)&context->payload[4]);
+    if (length < GRACHT_MESSAGE_HEADER_SIZE || length > capacity) {
+        GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), length);
+        errno = (EFAULT);
+        return -1;
+    }
+
+    missingData = length - GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
@@ -183,7 +194,7 @@ static int socket_link_recv_client(struct socket_link_client* client,
     context->link   = client->link;
     context->client = client->socket;
     context->index  = 0;
-    context->size   = *((uint32_t*)&context->payload[4]);
+    context->size   = length;
 
 #ifdef _WIN32
     // queue up another read
diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..607bcf8 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -333,7 +333,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
-- 
2.43.0


From 40e142d327c37c6a1db8bc8623928a368128deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 04/31] fix: server message buffers were freed with wrong sizes
 and not checked for exhaustion

The unused part of a buffer was computed from the length field of the
message and could wrap, or be 0 which frees the whole buffer. When no
buffer was left the server dereferenced NULL or kept the client lock.
---
 runtime/server.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 607bcf8..08bd351 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -320,10 +320,12 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
         server_cleanup_message(server, message);
     }
     else {
-        uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
-        uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
+        size_t unusedLength = server->allocationSize - sizeof(struct gracht_message) - message->size;
 
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // return the unused part of the buffer, a size of 0 would free all of it
+        if (unusedLength) {
+            gracht_arena_free(server->arena, message, unusedLength);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -332,6 +334,10 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
+
     message->server = server;
     message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
@@ -339,7 +345,7 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
@@ -349,6 +355,11 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -393,6 +404,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
-- 
2.43.0


From 3e0a97f288db9089ee06c43aa3bb13a4c86321e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 05/31] fix: outgoing buffers leaked when the receiving client
 was gone

---
 runtime/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 08bd351..0603140 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -658,6 +658,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
+            stack_push(&messageContext->server->bufferStack, message->data);
             errno = ENODEV;
             return -1;
         }
@@ -690,6 +691,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
-- 
2.43.0


From f0517aecf883895e3f6fa4c60e912a65dc22cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 06/31] fix: disconnects were reported for handles that are not
 connected

---
 runtime/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 0603140..3e37d70 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -798,6 +798,15 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    // only the orchestrator thread modifies the clients, so the client can not
+    // disappear between this lookup and its removal
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
-- 
2.43.0


From eaf80e0f1281b70601e4ac56e015d95455a08670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 07/31] fix: connection-less clients could not be answered and
 their datagrams were not validated

Datagrams too short for a header or shorter than their length field were
processed, the payload was looked up behind the actual instead of the
reserved address length, and responses, events and cleanup used the client
identifier as if it was a connected socket.
---
 runtime/link/socket/client.c |  6 ++++++
 runtime/link/socket/server.c | 37 +++++++++++++++++++++++++++---------
 runtime/server.c             |  4 ++++
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index b2860f4..be8dc17 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -128,6 +128,12 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
         }
         return -1;
     }
+
+    if (*((uint32_t*)&base[4]) > (uint32_t)bytes_read) {
+        // do not process truncated messages
+        errno = (EPIPE);
+        return -1;
+    }
     return 0;
 }
 
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index bf1d06d..585fb66 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -34,6 +34,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -110,7 +111,14 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    if (client->streaming) {
+        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    }
+    else {
+        // the handle only identifies connection-less clients, reach them through the link
+        bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+    }
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -233,6 +241,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
+    client->address_length = link->address_length;
     
     *clientOut = client;
     return 0;
@@ -240,7 +249,7 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
@@ -253,8 +262,8 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     free(client);
     return status;
 }
@@ -481,14 +490,23 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
 #else
     // Packets are atomic, either the full packet is there, or none is. So avoid
     // the use of MSG_WAITALL here.
+    memset(&context->payload[0], 0, (size_t)addrlen);
     intmax_t bytesRead = (intmax_t)recvfrom(link->base.connection, base, len, 
         socketFlags, (struct sockaddr*)&context->payload[0], &addrlen);
-    if (bytesRead <= 0) {
-        if (bytesRead == 0) {
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE) {
+        if (bytesRead >= 0) {
             errno = (ENODATA);
         }
         return -1;
     }
+    if (*((uint32_t*)&base[4]) > (uint32_t)bytesRead) {
+        // do not process truncated requests
+        errno = (ENODATA);
+        return -1;
+    }
+    if (addrlen > link->address_length) {
+        addrlen = link->address_length; // the address was truncated
+    }
 #endif
 
     addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
@@ -499,8 +517,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
     // ->server is set by server
     context->link   = link->base.connection;
     context->client = (int)addressCrc;
-    context->index  = addrlen;
-    context->size   = (uint32_t)bytesRead + (uint32_t)addrlen;
+    context->index  = link->address_length;
+    context->size   = (uint32_t)bytesRead + (uint32_t)link->address_length;
 
 #ifdef _WIN32
     // queue up another read
@@ -520,14 +538,15 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    // the address of the sender is stored in front of the request
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, 0,
+        (const struct sockaddr*)&messageContext->payload[0], link->address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
diff --git a/runtime/server.c b/runtime/server.c
index 3e37d70..523a336 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -876,6 +876,10 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
 
         // lookup the connection as the client wasn't recorded on a specific link
         newEntry.link = get_link_by_conn(message->server, message->link);
+        if (!newEntry.link) {
+            GRERROR(GRSTR("gracht_control_subscribe_invocation message was received on an unknown link"));
+            return;
+        }
         if (newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
             GRERROR(GRSTR("gracht_control_subscribe_invocation server_object.link->create_client returned error"));
             return;
-- 
2.43.0


From 22cca554f8843a0132808373ff1a06074918cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:40 +0000
Subject: [PATCH 08/31] fix: a partially received message header desynchronised
 the stream

The bytes that had been read were thrown away and the next read started in
the middle of a header. A message that could not be completed also left the
client connected with the stream position lost.
---
 runtime/link/socket/client.c |  7 +++++++
 runtime/link/socket/server.c | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index be8dc17..fae80a9 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -54,6 +54,13 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
     bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    if (bytesRead > 0 && bytesRead < GRACHT_MESSAGE_HEADER_SIZE) {
+        // only a part of the header has arrived, we must not lose our place in the stream
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        if (recv(link->base.connection, &message->data[bytesRead], missingData, MSG_WAITALL) == (intmax_t)missingData) {
+            bytesRead = GRACHT_MESSAGE_HEADER_SIZE;
+        }
+    }
     if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
         if (bytesRead == 0) {
             errno = (ENODATA);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 585fb66..be68062 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -165,12 +165,22 @@ static int socket_link_recv_client(struct socket_link_client* client,
     }
 #else
     bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = ENODATA;
         }
         return -1;
     }
+
+    // only a part of the header has arrived, we must not lose our place in the stream
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        bytesRead   = recv(client->base.handle, &context->payload[bytesRead], (size_t)missingData, MSG_WAITALL);
+        if (bytesRead != missingData) {
+            errno = (EFAULT);
+            return -1;
+        }
+    }
 #endif
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
@@ -193,7 +203,7 @@ static int socket_link_recv_client(struct socket_link_client* client,
             // do not process incomplete requests
             GRERROR(GRSTR("socket_link_recv_client did not read full amount of bytes (%u, expected %u)"),
                   (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
+            errno = (EFAULT);
             return -1;
         }
     }
-- 
2.43.0


From 1810b89b362557e265a8fc0fb8778e4781143686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 09/31] fix: messages sent on a stream could be cut short or
 mixed with others

A non-blocking send that only sent a part of the message dropped the rest,
and threads responding to the same client could interleave their messages.
Sending to a peer that was gone raised SIGPIPE instead of an error.
---
 runtime/link/socket/client.c    |  2 +-
 runtime/link/socket/server.c    | 12 +++++++++++-
 runtime/link/socket/socket_os.h | 25 +++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index fae80a9..f5ae90b 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -34,7 +34,7 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 {
     long byteCount;
     
-    byteCount = (long)send(link->base.connection, &message->data[0], message->index, 0);
+    byteCount = (long)socket_send_all(link->base.connection, &message->data[0], message->index, 0);
     if ((uint32_t)byteCount != message->index) {
         GRERROR(GRSTR("link_client: failed to send message, bytes sent: %li, expected: %u (%i)"),
               byteCount, message->index, errno);
diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index be68062..2d40a02 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -26,6 +26,7 @@
 #include "logging.h"
 #include "crc.h"
 #include "server_private.h"
+#include "thread_api.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -38,6 +39,7 @@ struct socket_link_client {
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
+    mtx_t                       send_lock;
 #ifdef _WIN32
     WSABUF                      waitbuf;
     uint8_t                     headerbuf[GRACHT_MESSAGE_HEADER_SIZE];
@@ -69,6 +71,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
 
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     client->waitbuf.buf = &client->headerbuf[0];
     client->waitbuf.len = GRACHT_MESSAGE_HEADER_SIZE;
 
@@ -79,6 +82,7 @@ static int queue_accept(struct gracht_link_socket* link, gracht_handle_t iocp_ha
         DWORD reason = WSAGetLastError();
         if (reason != WSA_IO_PENDING) {
             closesocket(client->socket);
+            mtx_destroy(&client->send_lock);
             free(client);
             return -1;
         }
@@ -112,7 +116,11 @@ static int socket_link_send_client(struct socket_link_client* client,
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
     if (client->streaming) {
-        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+        // messages must not be mixed, so keep other threads out and never stop in the
+        // middle of a message once a part of it has been sent
+        mtx_lock(&client->send_lock);
+        bytesWritten = socket_send_all(client->base.handle, &message->data[0], message->index, socketFlags);
+        mtx_unlock(&client->send_lock);
     }
     else {
         // the handle only identifies connection-less clients, reach them through the link
@@ -273,6 +281,7 @@ static int socket_link_destroy_client(struct socket_link_client* client, gracht_
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
         status = close(client->base.handle);
+        mtx_destroy(&client->send_lock);
     }
     free(client);
     return status;
@@ -445,6 +454,7 @@ static int socket_link_accept(
     }
     client->base.handle = client->socket;
     client->streaming   = 1;
+    mtx_init(&client->send_lock, mtx_plain);
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
diff --git a/runtime/link/socket/socket_os.h b/runtime/link/socket/socket_os.h
index 48cc463..027042e 100644
--- a/runtime/link/socket/socket_os.h
+++ b/runtime/link/socket/socket_os.h
@@ -24,6 +24,7 @@
 #define __GRACHT_SOCKET_OS_H__
 
 #include "utils.h"
+#include <errno.h>
 
 #if defined(MOLLENOS)
 #include <inet/socket.h>
@@ -144,6 +145,30 @@ static inline void __set_nonblocking_if_needed(gracht_conn_t socket, unsigned in
 
 #endif
 
+// a peer that went away must be reported as an error, not kill the process
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
+// Sends an entire message. Only the start of it is subject to MSG_DONTWAIT, as a message of which
+// a part has been sent must be completed. Returns the length of the message, or -1 if it failed.
+static intmax_t socket_send_all(gracht_conn_t connection, const char* data, size_t length, unsigned int flags)
+{
+    size_t sent = 0;
+    do {
+        intmax_t result = send(connection, &data[sent], length - sent, flags | MSG_NOSIGNAL);
+        if (result < 0 && errno == EINTR) {
+            continue;
+        }
+        if (result <= 0) {
+            return -1;
+        }
+        sent  += (size_t)result;
+        flags &= ~MSG_DONTWAIT;
+    } while (sent < length);
+    return (intmax_t)sent;
+}
+
 struct gracht_link_socket {
     struct gracht_link      base;
     int                     listen;
-- 
2.43.0


From 03ad143eff1018765d362fa0aee6eb6d908eb9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 10/31] fix: workers missed shutdown requests and handled jobs
 that did not exist

The worker state was changed without the lock its wakeups are paired with,
so a shutdown request could be overwritten or missed and destroying the
pool would hang. A spurious wakeup made the worker handle a NULL message.
---
 runtime/dispatch_generic.c | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..805db16 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -26,8 +26,7 @@
 #include <stdlib.h>
 
 enum gracht_worker_state {
-    WORKER_STARTUP = 0,
-    WORKER_ALIVE,
+    WORKER_ALIVE = 0,
     WORKER_SHUTDOWN_REQUEST,
     WORKER_SHUTDOWN
 };
@@ -103,8 +102,10 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
         cnd_signal(&pool->workers[i].signal);
+        mtx_unlock(&pool->workers[i].sync_object);
 
         // wait for cleanup
         thrd_join(pool->workers[i].id, &exitCode);
@@ -153,7 +154,7 @@ static void initialize_worker(struct gracht_server* server, struct gracht_worker
     gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
-    worker->state = WORKER_STARTUP;
+    worker->state = WORKER_ALIVE;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
@@ -175,41 +176,39 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
     while (1) {
+        job = NULL;
+
         mtx_lock(&worker->sync_object);
-        job = gr_queue_dequeue(&worker->job_queue);
-        if (!job) {
-            cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
+        while (worker->state != WORKER_SHUTDOWN_REQUEST) {
+            job = gr_queue_dequeue(&worker->job_queue);
+            if (job) {
                 break;
             }
-
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+            cnd_wait(&worker->signal, &worker->sync_object);
         }
         mtx_unlock(&worker->sync_object);
 
+        // we are only woken without a job when a shutdown was requested
+        if (!job) {
+            break;
+        }
+
         // handle the job
         GRTRACE(GRSTR("worker_dowork: handling message"));
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
-
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
     }
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
+    mtx_lock(&worker->sync_object);
+    worker->state = WORKER_SHUTDOWN;
     job = gr_queue_dequeue(&worker->job_queue);
     while (job) {
         server_cleanup_message(workerContext->server, job);
         job = gr_queue_dequeue(&worker->job_queue);
     }
+    mtx_unlock(&worker->sync_object);
 
     free(workerContext);
     return 0;
-- 
2.43.0


From 80c27861659ccefe31aa0a280bfffb39df69ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 11/31] fix: messages were dropped and leaked when the queue of
 a worker was full

---
 runtime/dispatch_generic.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 805db16..96a8df9 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -120,6 +120,7 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status;
 
     if (!pool || !recvMessage) {
         return;
@@ -127,7 +128,7 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
+    status = gr_queue_enqueue(&worker->job_queue, recvMessage);
     mtx_unlock(&worker->sync_object);
     cnd_signal(&worker->signal);
 
@@ -136,6 +137,12 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     if (pool->rr_index == pool->worker_count) {
         pool->rr_index = 0;
     }
+
+    // never drop the message because the worker is behind, handle it here instead
+    if (status) {
+        server_invoke_action(recvMessage->server, recvMessage);
+        server_cleanup_message(recvMessage->server, recvMessage);
+    }
 }
 
 static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
-- 
2.43.0


From 442bdb60f57b5954942f93eab5f06b35b36d5f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 12/31] fix: failing to start a worker was ignored

The pool was reported as created and destroying it, or dispatching to the
worker, used a thread and a queue that had never been initialised.
---
 runtime/dispatch_generic.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 96a8df9..3c01af6 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -51,7 +51,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -81,10 +81,16 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     }
 
     pool->workers = workers;
-    pool->worker_count = numberOfWorkers;
+    pool->worker_count = 0;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            // stop the workers we did manage to start
+            gracht_worker_pool_destroy(pool);
+            errno = ENOMEM;
+            return -1;
+        }
+        pool->worker_count++;
     }
 
     *poolOut = pool;
@@ -145,27 +151,35 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker queue"));
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_ALIVE;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
-- 
2.43.0


From be9fe3981ffb29d1fbc23a336a7f3534e2d4943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 13/31] fix: failing to create a server leaked resources or was
 ignored

The event descriptor, workers and memory acquired before the failure were
never released, and a server whose tables could not be allocated was
returned as usable.
---
 runtime/server.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index 523a336..69ec72b 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -124,6 +124,7 @@ static void     client_enum_broadcast(int index, const void* element, void* user
 
 
 static int configure_server(struct gracht_server*, gracht_server_configuration_t*);
+static int gracht_server_shutdown(gracht_server_t*);
 
 int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t** serverOut)
 {
@@ -143,24 +144,33 @@ int gracht_server_create(gracht_server_configuration_t* config, gracht_server_t*
     memset(server, 0, sizeof(gracht_server_t));
     server->set_handle = GRACHT_HANDLE_INVALID;
 
-    status = configure_server(server, config);
-    if (status) {
-        GRERROR(GRSTR("gracht_server_start: invalid configuration provided"));
-        free(server);
-        return -1;
-    }
-
     // initialize static members of the instance
     rwlock_init(&server->protocols_lock);
     rwlock_init(&server->clients_lock);
-    gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
-    stack_construct(&server->bufferStack, 8);
 
-    // everything is set up - update state before registering control protocol
+    // from here the instance can be shut down, which is also how we clean up if anything fails
     server->state = RUNNING;
 
-    gracht_server_register_protocol(server, &gracht_control_server_protocol);
+    status = configure_server(server, config);
+    if (!status) {
+        status = gr_hashtable_construct(&server->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
+    }
+    if (!status) {
+        status = gr_hashtable_construct(&server->clients, 0, sizeof(struct client_wrapper), client_hash, client_cmp);
+    }
+    if (!status) {
+        status = stack_construct(&server->bufferStack, 8);
+    }
+    if (!status) {
+        status = gracht_server_register_protocol(server, &gracht_control_server_protocol);
+    }
+    if (status) {
+        GRERROR(GRSTR("gracht_server_start: failed to create the server"));
+        status = errno;
+        gracht_server_shutdown(server);
+        errno = status;
+        return -1;
+    }
 
     *serverOut = server;
     return 0;
-- 
2.43.0


From 40c028fafb661d66defd17eb95f2afd938a1f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 14/31] fix: a client whose tables could not be allocated was
 returned as usable

---
 runtime/client.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..80f849a 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -586,15 +586,19 @@ int gracht_client_create(gracht_client_configuration_t* config, gracht_client_t*
     mtx_init(&client->wait_lock, mtx_plain);
     mtx_init(&client->messages_lock, mtx_plain);
     mtx_init(&client->awaiters_lock, mtx_plain);
-    gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp);
-    gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp);
-    gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp);
-
     client->link = config->link;
     client->iod = GRACHT_CONN_INVALID;
     client->current_awaiter_id = 1;
     client->current_message_id = 1;
 
+    if (gr_hashtable_construct(&client->protocols, 0, sizeof(struct gracht_protocol), protocol_hash, protocol_cmp) ||
+        gr_hashtable_construct(&client->messages, 0, sizeof(struct gracht_message_descriptor), message_hash, message_cmp) ||
+        gr_hashtable_construct(&client->awaiters, 0, sizeof(struct gracht_message_awaiter_entry), awaiter_hash, awaiter_cmp)) {
+        GRERROR(GRSTR("gracht_client: failed to allocate memory for client tables"));
+        errno = (ENOMEM);
+        goto error;
+    }
+
     // handle memory sizes
     client->max_message_size = config->max_message_size;
     if (client->max_message_size <= 0) {
-- 
2.43.0


From 673ecddd52078e5f323a4e2fefc5c4b49cc486ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 15/31] fix: the socket of a link that failed its setup was
 leaked

---
 runtime/link/socket/server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 2d40a02..b914c33 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -306,6 +306,8 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
@@ -345,12 +347,16 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         status = bind(link->base.connection,
             (const struct sockaddr*)&link->address, link->address_length);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
         // Enable listening for connections, with a maximum of 2 on backlog
         status = listen(link->base.connection, 2);
         if (status) {
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
             return GRACHT_CONN_INVALID;
         }
         
-- 
2.43.0


From bb2ed13200397d9e934f5069c8d7d493cb0326f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 16/31] fix: links and clients that could not be monitored were
 reported as set up

---
 runtime/link/socket/server.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index b914c33..0d9ef41 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -313,7 +313,10 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return GRACHT_CONN_INVALID;
         }
 
 #ifdef _WIN32
@@ -362,7 +365,10 @@ static gracht_conn_t socket_link_setup(struct gracht_link_socket* link, gracht_h
         
         status = socket_aio_add(set_handle, link->base.connection);
         if (status) {
-            GRWARNING(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            GRERROR(GRSTR("socket_link_setup failed to add socket to set_handle"));
+            close(link->base.connection);
+            link->base.connection = GRACHT_CONN_INVALID;
+            return GRACHT_CONN_INVALID;
         }
 
 #ifdef _WIN32
@@ -464,7 +470,11 @@ static int socket_link_accept(
     
     status = socket_aio_add(set_handle, client->socket);
     if (status) {
-        GRWARNING(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        GRERROR(GRSTR("socket_link_accept failed to add socket to set_handle"));
+        close(client->socket);
+        mtx_destroy(&client->send_lock);
+        free(client);
+        return -1;
     }
     
     *clientOut = &client->base;
-- 
2.43.0


From 595ed5608d5d653e446265859b90b6b319565dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 17/31] fix: receive buffers of unexpected responses were
 leaked

A response no-one waits for kept its buffer, and a second response to the
same message replaced the buffer of the first.
---
 runtime/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 80f849a..0d62ee7 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -206,7 +206,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -310,6 +310,7 @@ listenForMessage:
     } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
         status = __handle_response(client, &buffer);
         if (status) {
+            gracht_arena_free(client->arena, buffer.data, 0);
             goto listenForMessage;
         }
 
-- 
2.43.0


From 4ccce6dbe42fc783411cdab4a89509b2d5c35c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:56 +0000
Subject: [PATCH 18/31] fix: asking for the result of a pending message lost
 its response

The message was forgotten although it was still in progress, and its
descriptor was accessed after the lock protecting it was released.
---
 runtime/client.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 0d62ee7..b81d2b3 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -522,7 +522,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -537,12 +537,23 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
+
+    // keep the message around untill the response has been received
+    if (MESSAGE_STATUS_EXECUTED(status)) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+    }
     mtx_unlock(&client->messages_lock);
 
     // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
+    if (status == GRACHT_MESSAGE_ERROR) {
+        if (buffer->data) {
+            gracht_arena_free(client->arena, buffer->data, 0);
+            buffer->data = NULL;
         }
     }
     return status;
-- 
2.43.0


From cb5cb8567a9480f317d5badc7476e9571ae10a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 19/31] fix: asynchronous awaits could miss their wakeup and
 use a deleted awaiter

The waiting thread did not check whether the responses had arrived before
it went to sleep and took any wakeup for completion. The receiving thread
updated and signalled the awaiter without its lock, possibly after it had
been deleted. A message that was already executed was counted again.
---
 runtime/client.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index b81d2b3..23c4ee4 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -338,6 +338,11 @@ listenOrExit:
     return status;
 }
 
+static inline bool __await_done(unsigned int flags, int current, int count)
+{
+    return current == count || (!(flags & GRACHT_AWAIT_ALL) && current > 0);
+}
+
 static struct gracht_message_awaiter* __awaiter_new(
         gracht_client_t* client,
         unsigned int     flags,
@@ -350,7 +355,9 @@ static struct gracht_message_awaiter* __awaiter_new(
         return NULL;
     }
 
+    mtx_lock(&client->awaiters_lock);
     awaiter->id            = get_awaiter_id(client);
+    mtx_unlock(&client->awaiters_lock);
     awaiter->flags         = flags;
     awaiter->count         = contextCount;
     awaiter->current_count = 0;
@@ -359,6 +366,13 @@ static struct gracht_message_awaiter* __awaiter_new(
     return awaiter;
 }
 
+static void __awaiter_delete(struct gracht_message_awaiter* awaiter)
+{
+    cnd_destroy(&awaiter->event);
+    mtx_destroy(&awaiter->mutex);
+    free(awaiter);
+}
+
 static inline void __await_add(
         gracht_client_t*               client,
         struct gracht_message_awaiter* awaiter)
@@ -454,7 +468,7 @@ int gracht_client_await_multiple(
 
     // calculate here whether we can bail early, so we can skip time
     // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
+    bail = __await_done(flags, awaiter->current_count, awaiter->count);
 
     // add the awaiter while we hold the message lock to avoid a data-race
     // between those
@@ -472,7 +486,9 @@ int gracht_client_await_multiple(
     // and thus we should just use the awaiter
     if (flags & GRACHT_AWAIT_ASYNC) {
         mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
+        while (!__await_done(flags, awaiter->current_count, awaiter->count)) {
+            cnd_wait(&awaiter->event, &awaiter->mutex);
+        }
         mtx_unlock(&awaiter->mutex);
     } else {
         // otherwise we are a single threaded application (maybe) and we should also
@@ -483,7 +499,7 @@ int gracht_client_await_multiple(
 
 cleanup:
     // cleanup the awaiter
-    free(awaiter);
+    __awaiter_delete(awaiter);
     return 0;
 }
 
@@ -748,16 +764,15 @@ static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
         return;
     }
     awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
 
+    // the awaiter is only valid for as long as it is registered, so keep holding the lock
+    mtx_lock(&awaiter->mutex);
     awaiter->current_count++;
-    if (awaiter->flags & GRACHT_AWAIT_ALL) {
-        if (awaiter->current_count == awaiter->count) {
-            cnd_signal(&awaiter->event);
-        }
-    } else {
+    if (__await_done(awaiter->flags, awaiter->current_count, awaiter->count)) {
         cnd_signal(&awaiter->event);
     }
+    mtx_unlock(&awaiter->mutex);
+    mtx_unlock(&client->awaiters_lock);
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
@@ -783,7 +798,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
-- 
2.43.0


From fa1f31356c9195461d8ba39d15bbdeb41990f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 20/31] fix: awaiting any message waited for all, and never
 returned on connection errors

---
 runtime/client.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 23c4ee4..e201cd8 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -396,18 +396,25 @@ static inline void __await_remove(
     mtx_unlock(&client->awaiters_lock);
 }
 
-static inline void __await_loop(
+static inline int __await_loop(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
+        int                             contextCount,
+        unsigned int                    flags)
 {
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
+    int executed;
+
+    do {
+        // events that are not supported by us are ignored, any other error is fatal as
+        // there is no-one left to deliver the responses
+        if (gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK) && errno != ENOTSUP) {
+            return -1;
+        }
 
         // update status
+        executed = 0;
         mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
+        for (int i = 0; i < contextCount; i++) {
             struct gracht_message_descriptor* descriptor = gr_hashtable_get(
                     &client->messages,
                     &(struct gracht_message_descriptor) {
@@ -415,11 +422,12 @@ static inline void __await_loop(
                     }
             );
             if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
+                executed++;
             }
         }
         mtx_unlock(&client->messages_lock);
-    }
+    } while (!__await_done(flags, executed, contextCount));
+    return 0;
 }
 
 int gracht_client_await_multiple(
@@ -430,6 +438,7 @@ int gracht_client_await_multiple(
 {
     struct gracht_message_awaiter* awaiter;
     int                            i;
+    int                            status = 0;
     bool                           bail;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
@@ -493,14 +502,14 @@ int gracht_client_await_multiple(
     } else {
         // otherwise we are a single threaded application (maybe) and we should also
         // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
+        status = __await_loop(client, contexts, contextCount, flags);
     }
     __await_remove(client, awaiter);
 
 cleanup:
     // cleanup the awaiter
     __awaiter_delete(awaiter);
-    return 0;
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
-- 
2.43.0


From 2ad377cbfdbe1b909acd885ab4b12eb3d69f3d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 21/31] fix: generated code for strings and values in variants
 did not compile or lost the value

---
 generator/languages/langc.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 85d2960..0ccf3af 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -530,10 +530,14 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
     if member.get_is_variable():
         write_variable_struct_member_deserializer(service, member, outfile)
     elif typename.lower() == "string":
+        outfile.writeln("{")
+        outfile.indent_inc()
         outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
-        outfile.writeln(f"out->{name} = malloc(_{name}_length + 1);")
-        outfile.writeln(f"assert(out->{name} != NULL);")
+        outfile.writeln(f"out->{prefix}{name} = malloc(_{name}_length + 1);")
+        outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
         outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.indent_dec()
+        outfile.writeln("}")
     elif service.typename_is_struct(typename):
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
@@ -899,13 +903,11 @@ def write_structure_variant_member_functions(service: ServiceObject, struct: Str
             outfile.writeln(f"{member_name}_copy({entry.get_name()}, &in->{variant.get_name()}.{entry.get_name()});")
             outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         elif entry.get_typename() == "string":
-            outfile.writeln(f"if ({entry.get_typename()} != NULL) {{")
-            outfile.indent_inc()
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = strdup({entry.get_typename()});")
-            outfile.indent_dec()
-            outfile.writeln("}")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()} != NULL ? strdup({entry.get_name()}) : NULL;")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         else:
-            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_typename()};")
+            outfile.writeln(f"in->{variant.get_name()}.{entry.get_name()} = {entry.get_name()};")
+            outfile.writeln(f"in->{variant.get_name()}_type = {get_variant_enum_name(struct, variant, entry)};")
         outfile.indent_dec()
         outfile.writeln("}")
         outfile.writeln("")
-- 
2.43.0


From d1323f99d8440c1b7c17d96814bf4f83e20e7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 22/31] fix: copying generated structures truncated arrays of
 multi-byte elements

---
 generator/languages/langc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 0ccf3af..50d67f6 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -1048,7 +1048,7 @@ def write_structure_copy_function_members(service: ServiceObject, prefix, struct
             outfile.indent_dec()
             outfile.writeln("}")
         else:
-            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}_count);")
+            outfile.writeln(f"memcpy(out->{prefix}{member.get_name()}, in->{prefix}{member.get_name()}, sizeof({get_c_typename(service, member.get_typename())}) * in->{prefix}{member.get_name()}_count);")
         outfile.indent_dec()
         outfile.writeln("} else {")
         outfile.indent_inc()
-- 
2.43.0


From 43eb9013e25e2063fefd46647d4fc8c1b30d0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 23/31] fix: surplus array elements in a result corrupted the
 values following them

---
 generator/languages/langc.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 50d67f6..18d28e0 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -484,12 +484,24 @@ def write_variable_member_deserializer(service: ServiceObject, member, outfile:
     name = member.get_name()
     outfile.writeln("__count = deserialize_uint32(&__buffer);")
     if service.typename_is_struct(typename):
-        outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_count); __i++) {{")
+        outfile.writeln(f"for (uint32_t __i = 0; __i < __count; __i++) {{")
         outfile.indent_inc()
         struct_type = service.lookup_struct(typename)
         struct_name = get_scoped_name(struct_type)
+        struct_typename = get_scoped_typename(struct_type)
+        outfile.writeln(f"if (__i < {name}_count) {{")
+        outfile.indent_inc()
         outfile.writeln(f"deserialize_{struct_name}(&__buffer, &{name}_out[__i]);")
         outfile.indent_dec()
+        outfile.writeln("} else {")
+        outfile.indent_inc()
+        outfile.writeln("// no room for the element, but it must still be consumed")
+        outfile.writeln(f"{struct_typename} __discarded;")
+        outfile.writeln(f"deserialize_{struct_name}(&__buffer, &__discarded);")
+        outfile.writeln(f"{struct_name}_destroy(&__discarded);")
+        outfile.indent_dec()
+        outfile.writeln("}")
+        outfile.indent_dec()
         outfile.writeln("}")
     elif typename.lower() == "string":
         outfile.writeln(f"for (uint32_t __i = 0; __i < GRMIN(__count, {name}_max_length); __i++) {{")
-- 
2.43.0


From 35e1519ce3322836d66ead9db73e6be10de389e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 24/31] fix: reading a string result with no room for it
 overran the output

---
 generator/languages/langc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index 18d28e0..f6a08d7 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -547,7 +547,7 @@ def write_struct_member_deserializer(service: ServiceObject, prefix, struct, mem
         outfile.writeln(f"uint32_t _{name}_length = *((uint32_t*)&buffer->data[buffer->index]);")
         outfile.writeln(f"out->{prefix}{name} = malloc(_{name}_length + 1);")
         outfile.writeln(f"assert(out->{prefix}{name} != NULL);")
-        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], 0);")
+        outfile.writeln(f"deserialize_string_copy(buffer, &out->{prefix}{name}[0], _{name}_length + 1);")
         outfile.indent_dec()
         outfile.writeln("}")
     elif service.typename_is_struct(typename):
@@ -757,11 +757,13 @@ static inline void serialize_string(gracht_buffer_t* buffer, const char* string)
 
 static inline void deserialize_string_copy(gracht_buffer_t* buffer, char* out, uint32_t maxLength) {
     uint32_t length = *((uint32_t*)&buffer->data[buffer->index]);
-    uint32_t clampedLength = GRMIN(length, maxLength - 1);
-    if (clampedLength > 0) {
-        memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+    if (maxLength > 0) {
+        uint32_t clampedLength = GRMIN(length, maxLength - 1);
+        if (clampedLength > 0) {
+            memcpy(out, &buffer->data[buffer->index + sizeof(uint32_t)], clampedLength);
+        }
+        out[clampedLength] = 0;
     }
-    out[clampedLength] = 0;
     buffer->index += sizeof(uint32_t) + length + 1;
 }
 
-- 
2.43.0


From 6d1eadf5f0a2c9ef476b2336b01524e74287f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 25/31] fix: structures extending a structure that is declared
 later crashed the generator

---
 generator/passes/consolidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/passes/consolidate.py b/generator/passes/consolidate.py
index aa43b5a..47e8943 100644
--- a/generator/passes/consolidate.py
+++ b/generator/passes/consolidate.py
@@ -12,7 +12,7 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
         if struct_target is None:
             raise ValueError(f"Type {typename} cannot be resolved")
         if not struct_target in done:
-            consolidate_struct(struct_target)
+            consolidate_struct(service, done, struct_target)
         
         mems = struct.get_members()
         index = mems.index(member)
@@ -24,9 +24,9 @@ def consolidate_struct_member(service: ServiceObject, done: list, struct: Struct
 
 def consolidate_struct(service: ServiceObject, done: list, struct: StructureObject):
     if struct in done:
-        return
+        return done
     
-    for member in struct.get_members():
+    for member in list(struct.get_members()):
         consolidate_struct_member(service, done, struct, member)
     done.append(struct)
     return done
-- 
2.43.0


From c8c06bd3f79f69f81ea32802c42038090d55e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 26/31] fix: lower-case hexadecimal digits in ids were not
 parsed

---
 generator/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.py b/generator/parser.py
index 05843c4..5a2d1ab 100644
--- a/generator/parser.py
+++ b/generator/parser.py
@@ -791,7 +791,7 @@ def parse_digit(scanner, data):
     if data[startIdx] == '0' and data[startIdx + 1] == 'x':
         scanner.consume(2)
         while scanner.has_next():
-            if scanner.current() not in "0123456789ABCDEF":
+            if scanner.current() not in "0123456789ABCDEFabcdef":
                 break
             scanner.consume()
         return str2int(data[startIdx: scanner.index()])
-- 
2.43.0


From 912f177c1a5f4ff4fb1e285d53b4183661a7ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:38 +0000
Subject: [PATCH 27/31] fix: the id of a response was read from its buffer
 after it had been handed over

---
 runtime/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index e201cd8..6c518f8 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -308,14 +308,16 @@ listenForMessage:
     if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
         status = __invoke_action(client, &buffer);
     } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+        uint32_t responseId = GB_MSG_ID(&buffer);
+
         status = __handle_response(client, &buffer);
         if (status) {
             gracht_arena_free(client->arena, buffer.data, 0);
             goto listenForMessage;
         }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
+        // set message id handled, the buffer belongs to the awaiter already
+        messageId = responseId;
 
         // zero the buffer pointer, so it does not get freed, freeing is now handled by
         // the awaiter
-- 
2.43.0


From f3b3cba50fbcb7d7b0af28f6209932652d9f8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:16 +0000
Subject: [PATCH 28/31] fix: gracht_client_wait_message keeps receiving after
 the transport failed

When a response to another call had been received while waiting for a specific
message, a later receive error did not end the wait: the id of that earlier
response made the function start over, forever if the connection was lost.
---
 runtime/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 6c518f8..3a0ace7 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -329,7 +329,7 @@ listenOrExit:
         gracht_arena_free(client->arena, buffer.data, 0);
     }
 
-    if (context) {
+    if (context && !status) {
         // In case a context was provided the meaning is that we should wait
         // for a specific message. Make sure that the message we've handled were
         // the one that was requested.
-- 
2.43.0


From 99e530d1126967750b4f0f9835d11b8d32bad7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 29/31] fix: released arena memory is never merged with free
 memory that follows later

Free blocks are only merged with the next block when they are freed. Blocks that are
freed before the block behind them stay apart forever, and a multithreaded server that
handles overlapping requests runs out of receive buffers with all of its memory free.
Merge free blocks when searching for memory.
---
 runtime/arena.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 7497d56..d14a9ef 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -128,6 +128,18 @@ static inline void move_header(struct gracht_header* header, long byteCount)
     memmove(target, header, HEADER_SIZE);
 }
 
+static inline void merge_free_headers(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+
+    // blocks are only merged in forward direction when they are freed, so a free block
+    // can be followed by other free blocks
+    while (IS_HEADER(arena, nextHeader) && !nextHeader->allocated) {
+        header->length += nextHeader->length + HEADER_SIZE;
+        nextHeader = GET_NEXT_HEADER(header);
+    }
+}
+
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
     struct gracht_header* itr = arena->base;
@@ -135,8 +147,11 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
     while (IS_HEADER(arena, itr)) {
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
+        if (!itr->allocated) {
+            merge_free_headers(arena, itr);
+            if (itr->length >= size) {
+                return itr;
+            }
         }
 
         itr = GET_NEXT_HEADER(itr);
@@ -159,6 +174,10 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
         struct gracht_header* header     = GET_HEADER(allocation);
         struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
 
+        if (IS_HEADER(arena, nextHeader) && !nextHeader->allocated) {
+            merge_free_headers(arena, nextHeader);
+        }
+
         if (!IS_HEADER(arena, nextHeader) || nextHeader->allocated || nextHeader->length < correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
-- 
2.43.0


From 68f3f88bd62d9106037ea0747e4c969310f3ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 30/31] fix: growing an array of a generated structure did not
 check its allocation

---
 generator/languages/langc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/languages/langc.py b/generator/languages/langc.py
index f6a08d7..125fa83 100644
--- a/generator/languages/langc.py
+++ b/generator/languages/langc.py
@@ -969,6 +969,7 @@ def write_structure_member_functions(service: ServiceObject, struct: StructureOb
                 outfile.writeln(f"in->{member.get_name()} = malloc(sizeof({member_typename}) * count);")
                 outfile.indent_dec()
                 outfile.writeln("}")
+                outfile.writeln(f"assert(in->{member.get_name()} != NULL || count == 0);")
                 outfile.writeln("")
                 outfile.writeln("for (uint32_t i = 0; i < count; i++) {")
                 outfile.indent_inc()
-- 
2.43.0


From 9a9c917530fc5edf2eb94f17b4a77d298f2ec843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 31/31] fix: calls that were given nothing to work on failed
 without an error code

---
 runtime/client.c | 1 +
 runtime/shared.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/runtime/client.c b/runtime/client.c
index 3a0ace7..d2f3b07 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -524,6 +524,7 @@ int gracht_client_get_buffer(gracht_client_t* client, gracht_buffer_t* buffer)
 {
     GRTRACE(GRSTR("gracht_client_get_buffer()"));
     if (!client) {
+        errno = (EINVAL);
         return -1;
     }
 
diff --git a/runtime/shared.c b/runtime/shared.c
index 1d8526d..1fca26e 100644
--- a/runtime/shared.c
+++ b/runtime/shared.c
@@ -54,6 +54,7 @@ gracht_protocol_function_t* get_protocol_action(gr_hashtable_t* protocols,
 gracht_conn_t gracht_link_get_handle(struct gracht_link* link)
 {
     if (!link) {
+        errno = EINVAL;
         return GRACHT_CONN_INVALID;
     }
 
-- 
2.43.0

