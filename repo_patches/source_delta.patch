From 34742129c6a98960fb282ac2cba331eeef52cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 01/55] fix: embc_list_contains returned the inverse of
 membership

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..6c8db28 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 22ec6cdf9ef16b536c86d165e1b484e464aa0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 02/55] fix: embc_list_append of an empty list corrupted the
 target

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 6c8db28..a168f7b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From f2ea2db782b8e1744f61d5471c17eb64a4e72695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 03/55] fix: embc_list_foreach_reverse_unsafe did not compile

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index a168f7b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From f15807242a42d3380c670cb3c9a7750557529396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 04/55] fix: intmap resize dropped colliding entries and leaked
 the old table

---
 src/collections/intmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..0f6c9a4 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,11 +109,12 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &(*previous)->next;
             }
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From 3350f48c608ea29f1b44cc7c6ae8be29544b9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 05/55] fix: intmap remove leaked the removed entry

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 0f6c9a4..812225f 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -190,8 +190,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From c1223fcb020234d1f7a5d6e7a07141ba04ad2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 06/55] fix: intmap iterator did not end after an item in the
 last bin

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 812225f..3f2a7f0 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -205,6 +205,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             self->next_item = self->next_item->next;
             return;
         } else {
+            self->next_item = 0;
             self->current_bin += 1;
         }
     }
-- 
2.43.0


From 0711111eb1353c66e056edd62bd76f27882c88f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 07/55] fix: typed intmap free functions leaked the wrapper
 structures

---
 include/embc/collections/intmap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..210889c 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,12 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        if (self) { \
+            embc_intmap_free(self->intmap); \
+            free(self); \
+        } \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -199,7 +204,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         return embc_intmap_iterator_next(self->iter, key, (void *) value); \
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
-        embc_intmap_iterator_free(self->iter); \
+        if (self) { \
+            embc_intmap_iterator_free(self->iter); \
+            free(self); \
+        } \
     }
 
 /** @} */
-- 
2.43.0


From e47411e0fb4afece933946e5551052b863e8fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 08/55] fix: embc_hashmap_free leaked the table and all entries

---
 src/collections/hashmap.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..61f1f84 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,18 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        embc_size_t idx;
+        struct entry_s * item;
+        struct entry_s * next_item;
+        for (idx = 0; idx <= self->hashtable_mask; ++idx) {
+            item = self->hashtable[idx];
+            while (item) {
+                next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From 0518f3474342826e40ac97ea370a767d21c35213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 09/55] fix: mblock treated free blocks below an allocated
 block as allocated

---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From c21d14ffb0d705aafd43afa31b34c90ca73b25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 10/55] fix: oversize buffer allocations indexed past the pools

---
 src/memory/buffer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..b74a9e7 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
@@ -130,8 +130,7 @@ void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self) {
     // audit outstanding buffers?
 }
 
-static embc_size_t size_to_index_(struct embc_buffer_allocator_s * self, embc_size_t size) {
-    EMBC_ASSERT((size > 0) && (size <= self->size_max));
+static embc_size_t size_to_index_(embc_size_t size) {
     embc_size_t index = 32 - embc_clz((uint32_t) (size - 1));
     if (index < 5) {
         index = 0; // 32 bytes is smallest
@@ -143,7 +142,11 @@ static embc_size_t size_to_index_(struct embc_buffer_allocator_s * self, embc_si
 
 static inline struct embc_buffer_s * alloc_(
         struct embc_buffer_allocator_s * self, embc_size_t size) {
-    embc_size_t index = size_to_index_(self, size);
+    EMBC_ASSERT(size > 0);
+    if (size > self->size_max) {
+        return 0;
+    }
+    embc_size_t index = size_to_index_(size);
     struct pool_s * p = pool_get(self, index);
     struct embc_list_s * item = embc_list_remove_head(&p->buffers);
     if (0 == item) {
-- 
2.43.0


From f542e031b9fc1f5c124a9d9453b5d6d00be37a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 11/55] fix: buffer string writes rejected exact fits and could
 change length

---
 src/memory/buffer.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index b74a9e7..52c1c3f 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -231,17 +231,13 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
     EMBC_DBC_NOT_NULL(buffer);
     EMBC_DBC_NOT_NULL(str);
     uint16_t capacity = buffer->capacity - buffer->reserve;
-    while (buffer->cursor < capacity) {
-        if (*str == 0) {
-            write_update_length(buffer);
-            return true;
-        }
+    while ((*str != 0) && (buffer->cursor < capacity)) {
         buffer->data[buffer->cursor] = *str;
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return (*str == 0);
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From fcd310253cea98bf2ed1500d7dd0419ea2be973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 12/55] fix: EMBC_BUFFER_STATIC_INITIALIZE left reserve
 uninitialized

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From 46c785479e4308762f956a4e013196f9cba3c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 13/55] fix: cancelling the next event from an event callback
 corrupted processing

---
 src/event_manager.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..5ed4b92 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -111,17 +111,17 @@ int64_t embc_evm_interval_next(struct embc_evm_s * self, int64_t time_current) {
 }
 
 int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
-    struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
-        ev = EVGET(node);
+    // callbacks may schedule & cancel, so always restart from the head
+    while (!embc_list_is_empty(&self->events_pending)) {
+        ev = EVGET(embc_list_peek_head(&self->events_pending));
         if (ev->timestamp > time_current) {
             break;
         }
-        embc_list_remove(node);
+        embc_list_remove(&ev->node);
         ev->cbk_fn(ev->cbk_user_data, ev->event_id);
-        embc_list_add_tail(&self->events_free, node);
+        embc_list_add_tail(&self->events_free, &ev->node);
         ++count;
     }
     return count;
-- 
2.43.0


From dfb58bdb64e1edb893b8fb6097ac135658ff0345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 14/55] fix: embc_evm_schedule did not ignore timestamps <= 0
 as documented

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 5ed4b92..9e2b237 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -52,6 +52,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From b6b72f9af58748f1a4121cb87b33316ff659d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 15/55] fix: embc_evm_schedule dereferenced null when out of
 memory

---
 src/event_manager.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index 9e2b237..a252195 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -56,8 +56,11 @@ int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
         return 0;
     }
     if (embc_list_is_empty(&self->events_free)) {
-        ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
+        if (!ev) {
+            return 0;
+        }
+        ++self->event_counter;
         ev->event_id = self->event_counter;
         embc_list_initialize(&ev->node);
     } else {
-- 
2.43.0


From 5473e3c117b85a3c5f19113b26df344d8c169230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 16/55] fix: embc_evm_free leaked all events

---
 src/event_manager.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a252195..5c5af6f 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,18 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void events_free(struct embc_list_s * events) {
+    while (!embc_list_is_empty(events)) {
+        free(EVGET(embc_list_remove_head(events)));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        events_free(&self->events_pending);
+        events_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From ac7bece63142b7dab1ad45f17fc116b1de9cd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 17/55] fix: overlong command lines with redundant blanks were
 executed truncated

---
 src/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..1c0f469 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,7 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From 138de9d632e66a32979814ff41559956ae414de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 18/55] fix: execute_args was not called with the configured
 cookie

---
 src/cli.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 1c0f469..9cb02e5 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -150,7 +150,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -172,7 +174,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     self->cmdlen = 0;
     if (self->execute_args) {
         self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
     }
     print_prompt(self);
 }
-- 
2.43.0


From bd7b1cc81a456a1fa2d79843373b05585e237de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 19/55] fix: embc_cli_line_parser read past the end of the
 command line

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 9cb02e5..bb943d2 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -223,8 +223,12 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_size_t length = 0;
+    while ((length < (embc_size_t) (sizeof(line) - 1)) && cmdline[length]) {
+        line[length] = cmdline[length];
+        ++length;
+    }
+    line[length] = 0;
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From fe9ee0e863092b1ef167bb85d6da30e2e4d06f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 20/55] fix: embc_cstr_to_u32 accepted overflowing values and a
 bare 0x

---
 src/cstr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..8820d55 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -105,6 +105,9 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
         // hex string
         uint32_t nibble;
         src += 2;
+        if (!*src || _isspace((uint8_t) *src)) { // no digits
+            return 1;
+        }
         while (*src) {
             char c = *src;
             if ((c >= '0') && (c <= '9')) {
@@ -116,12 +119,19 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
             } else {
                 break;
             }
+            if (v > (UINT32_MAX >> 4)) { // too big
+                return 1;
+            }
             v = v * 16 + nibble;
             ++src;
         }
     } else {
         while ((*src >= '0') && (*src <= '9')) {
-            v = v * 10 + (*src - '0');
+            uint32_t digit = *src - '0';
+            if (v > ((UINT32_MAX - digit) / 10)) { // too big
+                return 1;
+            }
+            v = v * 10 + digit;
             ++src;
         }
     }
-- 
2.43.0


From b11a4a15c38c398028e1b4454a8641caa07debb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 21/55] fix: embc_cstr_to_i32 accepted overflowing values and
 detached signs

---
 src/cstr.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 8820d55..42c3d80 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -163,14 +163,18 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
         ++src;
     }
 
+    if (_isspace((uint8_t) *src)) { // space between sign and digits
+        return 1;
+    }
+
     int rc = embc_cstr_to_u32(src, &v);
     if (rc) {
         return rc;
     }
-    *value = (int32_t) v;
-    if (neg) {
-        *value = -*value;
+    if (v > (((uint32_t) INT32_MAX) + neg)) { // too big
+        return 1;
     }
+    *value = (int32_t) (neg ? (0 - v) : v);
     return 0;
 }
 
-- 
2.43.0


From 53feff932226e883f4f4b8645f537ba967fd3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 22/55] fix: embc_cstr_to_i32s accepted malformed text and
 rejected trailing space

---
 src/cstr.c | 56 ++++++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 42c3d80..3278ce2 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -179,12 +179,13 @@ int embc_cstr_to_i32(const char * src, int32_t * value) {
 }
 
 int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
-    int32_t v = 0;
+    int64_t v = 0;
+    int32_t digits = 0;
     int32_t decimal = -1;  // still on integer part
     int neg = 0;
 
     if (!src) {
-        return 0;
+        return 1;
     }
     if (exponent < 0) {
         return -1;
@@ -201,54 +202,51 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         ++src;
     }
 
-    while (decimal < exponent) {
-        if (*src == '.') {
+    int64_t v_max = ((int64_t) INT32_MAX) + neg;
+    while (1) {
+        if ((*src == '.') && (decimal < 0)) {
             decimal = 0;
-            ++src;
-            continue;
-        }
-        if ((*src == 0) || (*src == ',')) {
-            if (decimal < 0) {
-                break;
-            } else {
-                v *= 10;
-                ++decimal;
+        } else if ((*src >= '0') && (*src <= '9')) {
+            ++digits;
+            if (decimal < exponent) { // otherwise discard extra digits
+                v = v * 10 + (*src - '0');
+                if (v > v_max) { // too big
+                    return 1;
+                }
+                if (decimal >= 0) {
+                    ++decimal;
+                }
             }
         } else {
-            if (decimal >= 0) {
-                ++decimal;
-            }
-            v *= 10;
-            if ((*src >= '0') && (*src <= '9')) {
-                v += *src - '0';
-            } else {
-                return 1;
-            }
-            ++src;
+            break;
         }
+        ++src;
+    }
+    if (!digits) {
+        return 1;
     }
 
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src++)) { // did not parse full string
             return 1;
         }
-        ++src;
     }
 
     if (decimal < 0) {
         decimal = 0;
     }
-    while (decimal < exponent) {
+    while (v && (decimal < exponent)) {
         v *= 10;
+        if (v > v_max) { // too big
+            return 1;
+        }
         ++decimal;
     }
     if (neg) {
         v = -v;
     }
     if (value) {
-        *value = v;
+        *value = (int32_t) v;
     }
     return 0;
 }
-- 
2.43.0


From 554b3612271c99ff17470d84bbaec6497f2dece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 23/55] fix: pattern receiver duplicate_count was uninitialized
 and not accumulated

---
 src/pattern_32a.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
@@ -183,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
@@ -206,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From e8889ce801f2d90a006f021358afd161652a7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 24/55] fix: pattern receiver synchronized to corrupted words

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index ddfe641..0a99aca 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1))); // at most one bit set
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;  // corrupted word
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From 1e4a5060e48b7f81a408adc83cde519a5823aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 25/55] fix: EMBC_BBUF_DECODE_U8 was not usable in an
 expression

---
 include/embc/bbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index 97ebaed..e8c9ac0 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -136,7 +136,7 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer.
  * @return The value decoded from the buffer.
  */
-#define EMBC_BBUF_DECODE_U8(buffer) (buffer)[0];
+#define EMBC_BBUF_DECODE_U8(buffer) ((buffer)[0])
 
 /**
  * @brief Decode a uint16 from the buffer in big-endian order.
-- 
2.43.0


From 2ecb1f9c3f78378e306b4ce2c884210896db278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 26/55] fix: byte buffer macros were not single statements and
 misparsed arguments

---
 include/embc/bbuf.h | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/embc/bbuf.h b/include/embc/bbuf.h
index e8c9ac0..f39ea48 100644
--- a/include/embc/bbuf.h
+++ b/include/embc/bbuf.h
@@ -68,7 +68,7 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U8(buffer, value) (buffer)[0] = (value)
+#define EMBC_BBUF_ENCODE_U8(buffer, value) ((buffer)[0] = (value))
 
 /**
  * @brief Encode a uint16 to the buffer in big-endian order.
@@ -76,9 +76,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U16_BE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U16_BE(buffer, value) do { \
         (buffer)[0] = ((value) >> 8) & 0xff; \
-        (buffer)[1] = ((value)     ) & 0xff
+        (buffer)[1] = ((value)     ) & 0xff; \
+    } while (0)
 
 /**
  * @brief Encode a uint16 to the buffer in little-endian order.
@@ -86,9 +87,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U16_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U16_LE(buffer, value) do { \
         (buffer)[0] = ((value)     ) & 0xff; \
-        (buffer)[1] = ((value) >> 8) & 0xff
+        (buffer)[1] = ((value) >> 8) & 0xff; \
+    } while (0)
 
 /**
  * @brief Encode a uint32 to the buffer in big-endian order.
@@ -96,9 +98,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U32_BE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U32_BE(buffer, value) do { \
         EMBC_BBUF_ENCODE_U16_BE((buffer), ( (value) >> 16)); \
-        EMBC_BBUF_ENCODE_U16_BE((buffer) + 2, (value) )
+        EMBC_BBUF_ENCODE_U16_BE((buffer) + 2, (value) ); \
+    } while (0)
 
 /**
  * @brief Encode a uint32 to the buffer in little-endian order.
@@ -106,9 +109,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U32_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U32_LE(buffer, value) do { \
         EMBC_BBUF_ENCODE_U16_LE((buffer), (value) ); \
-        EMBC_BBUF_ENCODE_U16_LE((buffer) + 2, (value) >> 16)
+        EMBC_BBUF_ENCODE_U16_LE((buffer) + 2, (value) >> 16); \
+    } while (0)
 
 /**
  * @brief Encode a uint64to the buffer in big-endian order.
@@ -116,9 +120,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U64_BE(buffer, value) \
-        EMBC_BBUF_ENCODE_U32_BE((buffer), ( (value) >> 32)); \
-        EMBC_BBUF_ENCODE_U32_BE((buffer) + 4, (value) )
+#define EMBC_BBUF_ENCODE_U64_BE(buffer, value) do { \
+        EMBC_BBUF_ENCODE_U32_BE((buffer), ( ((uint64_t) (value)) >> 32)); \
+        EMBC_BBUF_ENCODE_U32_BE((buffer) + 4, (value) ); \
+    } while (0)
 
 /**
  * @brief Encode a uint64 to the buffer in little-endian order.
@@ -126,9 +131,10 @@ EMBC_CPP_GUARD_START
  * @param[in] buffer The pointer to the buffer pointer.
  * @param[in] value The value to add to the buffer.
  */
-#define EMBC_BBUF_ENCODE_U64_LE(buffer, value) \
+#define EMBC_BBUF_ENCODE_U64_LE(buffer, value) do { \
         EMBC_BBUF_ENCODE_U32_LE((buffer), (value) ); \
-        EMBC_BBUF_ENCODE_U32_LE((buffer) + 4, (value) >> 32)
+        EMBC_BBUF_ENCODE_U32_LE((buffer) + 4, ((uint64_t) (value)) >> 32); \
+    } while (0)
 
 /**
  * @brief Decode a uint8 from the buffer.
@@ -166,7 +172,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_BE(buffer) ( \
         (((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer)) << 16) | \
-        ((uint32_t) EMBC_BBUF_DECODE_U16_BE(buffer + 2)) )
+        ((uint32_t) EMBC_BBUF_DECODE_U16_BE((buffer) + 2)) )
 
 /**
  * @brief Decode a uint32 from the buffer in little-endian order.
@@ -176,7 +182,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U32_LE(buffer) ( \
         ((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer)) | \
-        (((uint32_t) EMBC_BBUF_DECODE_U16_LE(buffer + 2)) << 16) )
+        (((uint32_t) EMBC_BBUF_DECODE_U16_LE((buffer) + 2)) << 16) )
 
 /**
  * @brief Decode a uint64 from the buffer in big-endian order.
@@ -186,7 +192,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_BE(buffer) ( \
         (((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer)) << 32) | \
-        ((uint64_t) EMBC_BBUF_DECODE_U32_BE(buffer + 4)) )
+        ((uint64_t) EMBC_BBUF_DECODE_U32_BE((buffer) + 4)) )
 
 /**
  * @brief Decode a uint64 from the buffer in little-endian order.
@@ -196,7 +202,7 @@ EMBC_CPP_GUARD_START
  */
 #define EMBC_BBUF_DECODE_U64_LE(buffer) ( \
         ((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer)) | \
-        (((uint64_t) EMBC_BBUF_DECODE_U32_LE(buffer + 4)) << 32) )
+        (((uint64_t) EMBC_BBUF_DECODE_U32_LE((buffer) + 4)) << 32) )
 
 
 /** @} */
-- 
2.43.0


From 26d0238f81cec3f51fa22c8d5c0621eb5cfc980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 27/55] fix: time to counter conversions misparsed the
 frequency and its type

---
 include/embc/time.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..d992c03 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -182,7 +182,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
+    (( ((int64_t) (x)) * ((int64_t) (z)) + \
        _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
      >> EMBC_TIME_Q)
 
@@ -193,7 +193,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * ((int64_t) (z)) + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +202,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * ((int64_t) (z))) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
-- 
2.43.0


From 4990ea0bb0ccf1efcbe32e96ef3a54d6476dc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 28/55] fix: EMBC_ROUND_UP_TO_MULTIPLE and EMBC_CONTAINER_OF
 misparsed expressions

---
 include/embc/cdef.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..32b82da 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
@@ -190,7 +190,7 @@
  * @return The pointer to the container.
  */
 #define EMBC_CONTAINER_OF(ptr, type, member) \
-    ( (type *) ((char *) ptr - offsetof(type, member)) )
+    ( (type *) ((char *) (ptr) - offsetof(type, member)) )
 
 
 #ifdef __cplusplus
-- 
2.43.0


From 805f687b59ebecc1760793c5980848a62bd22a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 29/55] fix: log level names were missing separators

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 200f50a03ed69b03af8e95eaf8bd730661a2ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 30/55] fix: EMBC_LOG_ALERT did not compile

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From edc0bbf840b8c4e4884e04b45629d5897610dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 31/55] fix: log level checks misparsed level expressions

---
 include/embc/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index b0642ae..901e0b1 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -201,7 +201,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param level The level to query.
  * @return True if logging at level is permitted.
  */
-#define EMBC_LOG_CHECK_STATIC(level) ((level <= EMBC_LOG_GLOBAL_LEVEL) && (level <= EMBC_LOG_LEVEL) && (level >= 0))
+#define EMBC_LOG_CHECK_STATIC(level) (((level) <= EMBC_LOG_GLOBAL_LEVEL) && ((level) <= EMBC_LOG_LEVEL) && ((level) >= 0))
 
 /**
  * @brief Check a log level against a configured level.
@@ -210,7 +210,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
  * @param cfg_level The configured logging level.
  * @return True if level is permitted given cfg_level.
  */
-#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) (level <= cfg_level)
+#define EMBC_LOG_LEVEL_CHECK(level, cfg_level) ((level) <= (cfg_level))
 
 /*!
  * \brief Macro to log a printf-compatible formatted string.
-- 
2.43.0


From 42e1940e3b2b6bde54524541bdbf378a8bc63602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 32/55] fix: stream source ignored error responses and kept
 writing after an abort

---
 include/embc/stream/async_source.h |  1 +
 src/stream/async_source.c          | 36 ++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/embc/stream/async_source.h b/include/embc/stream/async_source.h
index 256387a..53ccdef 100644
--- a/include/embc/stream/async_source.h
+++ b/include/embc/stream/async_source.h
@@ -46,6 +46,7 @@ struct embc_stream_source_s {
     struct embc_stream_consumer_s * consumer;
     uint8_t file_id;
     uint8_t transaction_id;
+    uint8_t is_open;
     uint8_t * transaction_buffer;
     uint16_t transaction_length;
     uint8_t const * source_buffer;
diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..41de71b 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -17,28 +17,49 @@
 #include "embc/stream/async_source.h"
 #include "embc.h"
 
+static void send_close(struct embc_stream_source_s * s, uint8_t status) {
+    struct embc_stream_transaction_s t;
+    EMBC_STRUCT_INIT(t);
+    t.type = EMBC_STREAM_IOCTL_CLOSE;
+    t.status = status;
+    s->is_open = 0;
+    s->consumer->send(s->consumer, &t);
+}
+
 static void send(struct embc_stream_producer_s * self,
                  struct embc_stream_transaction_s * transaction) {
     EMBC_DBC_NOT_NULL(self);
     struct embc_stream_source_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_source_s, producer);
     switch (transaction->type) {
         case EMBC_STREAM_IOCTL_OPEN:
+            if (s->is_open && transaction->status) {
+                s->is_open = 0;
+                if (s->done_fn) {
+                    s->done_fn(s->done_user_data, transaction->status);
+                }
+            }
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
+            s->is_open = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, transaction->status);
             }
             break;
         case EMBC_STREAM_IOCTL_WRITE:
+            if (!s->is_open) {
+                break;
+            }
+            if (transaction->status) {
+                send_close(s, transaction->status);
+                break;
+            }
             s->rx_offset += transaction->length;
             if (s->rx_offset >= s->source_length) {
-                EMBC_STRUCT_PTR_INIT(transaction);
-                transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-                s->consumer->send(s->consumer, transaction);
+                send_close(s, 0);
             }
             break;
         case EMBC_STREAM_EVENT_WRITE_REQUEST: {
-            if (s->tx_offset >= s->source_length) {
+            if (!s->is_open || (s->tx_offset >= s->source_length)) {
                 break;
             }
             uint16_t sz = transaction->length;
@@ -67,9 +88,9 @@ static void send(struct embc_stream_producer_s * self,
             break;
         }
         case EMBC_STREAM_EVENT_ABORT:
-            transaction->type = EMBC_STREAM_IOCTL_CLOSE;
-            transaction->status = EMBC_ERROR_ABORTED;
-            s->consumer->send(s->consumer, transaction);
+            if (s->is_open) {
+                send_close(s, EMBC_ERROR_ABORTED);
+            }
             break;
         default:
             break;
@@ -128,6 +149,7 @@ EMBC_API void embc_stream_source_open_ex(
         uint16_t length) {
     self->tx_offset = 0;
     self->rx_offset = 0;
+    self->is_open = 1;
     struct embc_stream_transaction_s transaction;
     EMBC_STRUCT_INIT(transaction);
     transaction.type = EMBC_STREAM_IOCTL_OPEN;
-- 
2.43.0


From e5fe706d4b8030c2f7c57b89445fa7ca4dc0033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 33/55] fix: stream source exceeded the requested maximum
 transfer unit

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 41de71b..ac781ba 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -66,6 +66,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -73,6 +74,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 79f2a00a2579aa451e10e329b8c4ddae39692e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 34/55] fix: stream sink reported success for data that it
 dropped

---
 src/stream/async_sink.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..2836a69 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -70,12 +70,15 @@ static void send(struct embc_stream_consumer_s * self,
             if (s->dst_buffer) {
                 if (s->dst_length < (s->offset + transaction->length)) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    transaction->status = EMBC_ERROR_FULL;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
                            transaction->length);
                     s->offset += transaction->length;
                 }
+            } else if (!s->write_fn) {
+                transaction->status = EMBC_ERROR_UNAVAILABLE;
             }
             s->producer->send(s->producer, transaction);
             send_write_request(s);
-- 
2.43.0


From 92a6650a2df02498877dc54cce8cff356238f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 35/55] fix: stream sink emitted events while closed

---
 src/stream/async_sink.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 2836a69..deea91a 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -81,10 +81,12 @@ static void send(struct embc_stream_consumer_s * self,
                 transaction->status = EMBC_ERROR_UNAVAILABLE;
             }
             s->producer->send(s->producer, transaction);
-            send_write_request(s);
+            if (s->mode) {
+                send_write_request(s);
+            }
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
@@ -137,7 +139,7 @@ void embc_stream_sink_receive(
         embc_stream_sink_data_fn done_fn,
         void * done_user_data) {
     EMBC_DBC_NOT_NULL(self);
-    if (self->dst_buffer && !dst_buffer) {
+    if (self->dst_buffer && !dst_buffer && self->mode) {
         send_event(self, EMBC_STREAM_EVENT_DISCONNECT);
     }
     uint8_t send_connect = (!self->dst_buffer && dst_buffer);
-- 
2.43.0


From 055c6b0b367563ec36583f8dd60e6b75a2d14789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 36/55] fix: stream sink did not respond to noop and flush

---
 src/stream/async_sink.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index deea91a..50ed7f0 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -51,6 +51,11 @@ static void send(struct embc_stream_consumer_s * self,
     EMBC_DBC_NOT_NULL(self);
     struct embc_stream_sink_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_sink_s, consumer);
     switch (transaction->type) {
+        case EMBC_STREAM_IOCTL_NOOP:   // intentional fall-through
+        case EMBC_STREAM_IOCTL_FLUSH:
+            transaction->status = 0;
+            s->producer->send(s->producer, transaction);
+            break;
         case EMBC_STREAM_IOCTL_OPEN: {
             transaction->file_id = 1;
             s->mode = 1;
-- 
2.43.0


From e8c31ed61233a6b561c8d8533306f116a434cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 37/55] fix: framer freed and retransmitted buffers owned by
 the HAL

---
 src/stream/framer.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..cb192bc 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t hal_owned;  // buffer is with the HAL until embc_framer_hal_tx_done()
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -444,8 +445,11 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     struct embc_framer_header_s hdr = *buffer_hdr(t->b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
+    if (!t->hal_owned) {
+        embc_buffer_free(t->b);
+    } // else freed by embc_framer_hal_tx_done()
     t->b = 0;
+    t->hal_owned = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
     uint16_t port_def = hdr_port_def(&hdr);
@@ -463,7 +467,10 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
 }
 
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
+    if (t->hal_owned) {
+        // transmission still in progress: retransmit only after it completes.
+        transmit_tx_buf(self, t);
+    } else if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
     } else {
         ++t->retries;
@@ -566,10 +573,13 @@ static void timer_schedule(struct embc_framer_s * self) {
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     struct embc_framer_header_s * hdr = buffer_hdr(t->b);
     EMBC_LOGD2("tx 0x%02x, 0x%04x %p", hdr->frame_id, hdr_port_def(hdr), (void *) t->b);
-    t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owned) {
+        t->status = TX_STATUS_TRANSMITTING;
+        t->hal_owned = 1;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     timer_schedule(self);
 }
 
@@ -922,9 +932,14 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owned = 0;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        embc_buffer_free(buffer);  // completed during transmission
     }
 }
 
-- 
2.43.0


From 844168d60c5048edc30c1b5e8b5478854d63b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 38/55] fix: framer stopped retransmitting when an acknowledged
 frame timed out

---
 src/stream/framer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index cb192bc..0fe1c17 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -518,6 +518,7 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
 static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_framer_s * self = (struct embc_framer_s *) user_data;
     (void) timer_id;
+    self->next_timeout = EMBC_TIME_MAX;  // expired
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
@@ -558,7 +559,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
@@ -580,7 +581,6 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
         t->hal_owned = 1;
         self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
     }
-    timer_schedule(self);
 }
 
 static void transmit_queued(struct embc_framer_s * self) {
@@ -657,6 +657,7 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
+        timer_schedule(self);
     }
 }
 
@@ -1035,6 +1036,7 @@ void embc_framer_send(
     self->tx_next_frame_id = frame_id_incr(self->tx_next_frame_id);
     embc_list_add_tail(&self->tx_queue, &buffer->item);
     transmit_queued(self);
+    timer_schedule(self);
 }
 
 void embc_framer_send_payload(
-- 
2.43.0


From f68caafc60113aae16d151830296a91c62a27e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 39/55] fix: framer completions out of order and stalled after
 retries were exhausted

---
 src/stream/framer.c | 67 +++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 0fe1c17..7f7d7c2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -68,6 +68,7 @@ enum tx_status_e {
     TX_STATUS_TRANSMITTING = 1,
     TX_STATUS_AWAIT_ACK = 2,
     TX_STATUS_ACKED = 3,
+    TX_STATUS_FAILED = 4,
 };
 
 // structure to manage pending transmit frames
@@ -77,6 +78,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t result;     // completion status, valid for TX_STATUS_FAILED
     uint8_t hal_owned;  // buffer is with the HAL until embc_framer_hal_tx_done()
 };
 
@@ -94,6 +96,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -418,17 +421,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -471,7 +463,9 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
         // transmission still in progress: retransmit only after it completes.
         transmit_tx_buf(self, t);
     } else if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
-        tx_complete(self, t, status);
+        // complete in order: see tx_complete_in_order()
+        t->status = TX_STATUS_FAILED;
+        t->result = status;
     } else {
         ++t->retries;
         ++self->status.tx_retransmit_count;
@@ -493,25 +487,19 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     }
 }
 
-static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s * t_current) {
+static bool tx_is_finished(struct tx_buf_s * t) {
+    return (TX_STATUS_ACKED == t->status) || (TX_STATUS_FAILED == t->status);
+}
+
+static void tx_complete_in_order(struct embc_framer_s * self) {
     // Complete only when guaranteed in order!
-    bool match_current = false;
-    struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
-            tx_complete(self, t, 0);
-        } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
-            ++self->status.tx_retransmit_count;
-            transmit_tx_buf(self, t);
-            break;
-        } else {
+    while (!embc_list_is_empty(&self->tx_buffers_active)) {
+        struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (!tx_is_finished(t)) {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
+        tx_complete(self, t, (TX_STATUS_ACKED == t->status) ? 0 : t->result);
     }
 }
 
@@ -529,10 +517,12 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     }
     embc_list_foreach(&self->tx_buffers_active, item) {
         t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (current_time >= t->timeout)) {
+        if (!tx_is_finished(t) && (current_time >= t->timeout)) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
+    tx_complete_in_order(self);
+    transmit_queued(self);
     timer_schedule(self);
 }
 
@@ -559,7 +549,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
+        if (!tx_is_finished(t) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
@@ -625,7 +615,16 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
                 t->status = TX_STATUS_ACKED;
             }
         }
-        tx_complete_in_order(self, t_match);
+        tx_complete_in_order(self);
+        if (find_tx(self, hdr_frame_id(ack_hdr)) == t_match) {
+            // acknowledged but still active: an earlier frame was lost.
+            item = embc_list_peek_head(&self->tx_buffers_active);
+            struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+            if (TX_STATUS_AWAIT_ACK == t->status) {
+                ++self->status.tx_retransmit_count;
+                transmit_tx_buf(self, t);
+            }
+        }
     }
 
     transmit_queued(self);
@@ -653,7 +652,11 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         EMBC_LOGI("handle_ack nack, status=%d, frame_id=%d", (int) status, (int) frame_id);
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
-            tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            if (!tx_is_finished(t)) {
+                tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+                tx_complete_in_order(self);
+                transmit_queued(self);
+            }
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
-- 
2.43.0


From 2123610a1799173259503d5a9b8f8d2433809a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 40/55] fix: framer delivered out of order when the frame id
 wrapped

---
 src/stream/framer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 7f7d7c2..eb5b407 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -314,10 +314,11 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
+            embc_buffer_free(frame);
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From bca006d61508421a523273de9e7f893cbe75923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 41/55] fix: framer leaked frames for invalid ports

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index eb5b407..da0aa69 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -675,6 +675,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From c3c82472e4b228898c0d35ed445adda3d2e8f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 42/55] fix: framer resynchronization skipped frames and raised
 a fatal error

---
 src/stream/framer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index da0aa69..6c88912 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -814,9 +814,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -829,8 +830,6 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 self->rx_remaining = length - sz;
                 self->rx_state = ST_PAYLOAD_AND_FOOTER;
                 goto exit;
-            case EMBC_ERROR_MESSAGE_INTEGRITY:
-                break;  // consume & keep trying
             case EMBC_SUCCESS: {
                 self->rx_state = ST_SOF;
                 EMBC_LOGD3("rx_buffer may contain more data than just the frame, copy");
@@ -844,14 +843,17 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 self->rx_hook_fn(self->rx_hook_user_data, f);
                 break;
             }
-            case EMBC_ERROR_IO:
-                break;
+            case EMBC_ERROR_MESSAGE_INTEGRITY: /* intentional fall-through. */
+            case EMBC_ERROR_IO: /* intentional fall-through. */
             default:
+                ++i;  // consume & keep trying
                 break;
         }
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 87f9151315edc852b45ebbedd2791a5109f82af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 43/55] fix: framer answered corrupted acknowledgements with a
 nack for a data frame

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 6c88912..2b48db2 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -804,7 +804,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
             ++self->status.rx_mic_error;
             EMBC_LOGD1("framer_resync MIC");
             struct embc_framer_header_s * hdr = buffer_hdr(self->rx_buffer);
-            send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            if (EMBC_FRAMER_TYPE_ACK != (hdr->frame_id & EMBC_FRAMER_TYPE_MASK)) { // only DATA
+                send_frame_ack(self, hdr, EMBC_FRAMER_ACK_MASK_CURRENT, status);
+            }
         } else {
             EMBC_LOGD1("framer_resync sync");
             ++self->status.rx_synchronization_error;
-- 
2.43.0


From cb5d14ab771e3cb0d684b046f9cc810c487ce68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 44/55] fix: framer send rejected a maximum size payload in a
 plain buffer

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2b48db2..9a67794 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -1018,7 +1018,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
-- 
2.43.0


From dc4658086d4aab25476f1a595e4417d7ddb97d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 45/55] fix: framer status response contained the request
 payload

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 9a67794..f0afabd 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -174,6 +174,7 @@ static void port0_rx(void *user_data,
         case EMBC_FRAMER_PORT0_STATUS_REQ:
             EMBC_LOGD2("port0_rx status_req: frame_id=0x%02x, message_id=%d",
                        (int) hdr->frame_id, (int) hdr->message_id);
+            buffer->length = buffer->cursor;  // discard any request payload
             embc_buffer_write(buffer, &self->status, sizeof(self->status));
             embc_framer_send(self, port_id, message_id, EMBC_FRAMER_PORT0_STATUS_RSP, buffer);
             break;
-- 
2.43.0


From 80490506f560f1a67a2b7727ee0a3d41efa706a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 46/55] fix: framer resync mistook queued buffers for transmit
 slots

---
 src/stream/framer.c | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index f0afabd..2a23f44 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -348,10 +348,9 @@ static void rx_complete(struct embc_framer_s *self, struct embc_buffer_s * frame
 static void rx_complete_queued(struct embc_framer_s *self) {
     struct embc_list_s *item;
     struct embc_buffer_s *b;
-    embc_list_foreach(&self->rx_pending, item) {
+    while (0 != (item = embc_list_remove_head(&self->rx_pending))) {
         b = embc_list_entry(item, struct embc_buffer_s, item);
-        embc_list_remove(&b->item);
-        rx_complete(self, b);
+        rx_complete(self, b);  // may call embc_framer_resync()
     }
 }
 
@@ -435,17 +434,14 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+static void tx_buffer_complete(struct embc_framer_s * self, struct embc_buffer_s * b,
+                               uint8_t hal_owned, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    if (!t->hal_owned) {
-        embc_buffer_free(t->b);
+    if (!hal_owned) {
+        embc_buffer_free(b);
     } // else freed by embc_framer_hal_tx_done()
-    t->b = 0;
-    t->hal_owned = 0;
-    t->status = TX_STATUS_EMPTY;
-    embc_list_add_tail(&self->tx_buffers_free, &t->item);
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -460,6 +456,16 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_buffer_s * b = t->b;
+    uint8_t hal_owned = t->hal_owned;
+    t->b = 0;
+    t->hal_owned = 0;
+    t->status = TX_STATUS_EMPTY;
+    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    tx_buffer_complete(self, b, hal_owned, status);
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->hal_owned) {
         // transmission still in progress: retransmit only after it completes.
@@ -477,15 +483,20 @@ static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t s
 
 static void tx_purge_queued(struct embc_framer_s * self) {
     struct embc_list_s * item;
-    embc_list_foreach(&self->tx_buffers_active, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
+    struct embc_list_s active;
+    struct embc_list_s queue;
+    // detach first, since the callbacks may send new frames.
+    embc_list_initialize(&active);
+    embc_list_initialize(&queue);
+    embc_list_append(&active, &self->tx_buffers_active);
+    embc_list_append(&queue, &self->tx_queue);
+    while (0 != (item = embc_list_remove_head(&active))) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
-    embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+    while (0 != (item = embc_list_remove_head(&queue))) {
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
+        tx_buffer_complete(self, b, 0, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From b6856595b5dc3388663682333435f01f6b73d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 47/55] fix: framer finalize leaked its buffers and timer

---
 src/stream/framer.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 2a23f44..68b4000 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -98,6 +98,8 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
 static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
+static void timer_cancel(struct embc_framer_s * self);
+static void rx_purge_queued(struct embc_framer_s * self);
 
 struct embc_framer_s {
     struct embc_buffer_allocator_s * buffer_allocator;
@@ -301,7 +303,24 @@ void embc_framer_register_rx_hook(
 }
 
 void embc_framer_finalize(struct embc_framer_s * self) {
-    (void) self;
+    EMBC_DBC_NOT_NULL(self);
+    struct embc_list_s * item;
+    timer_cancel(self);
+    rx_purge_queued(self);
+    while (0 != (item = embc_list_remove_head(&self->tx_buffers_active))) {
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (!t->hal_owned) {
+            embc_buffer_free(t->b);
+        }
+        t->b = 0;
+    }
+    while (0 != (item = embc_list_remove_head(&self->tx_queue))) {
+        embc_buffer_free(embc_list_entry(item, struct embc_buffer_s, item));
+    }
+    if (0 != self->rx_buffer) {
+        embc_buffer_free(self->rx_buffer);
+        self->rx_buffer = 0;
+    }
 }
 
 static inline uint8_t frame_payload_length(uint8_t const * buffer) {
-- 
2.43.0


From 41cf4a0144d0aea8261d78689bb0f68b805db84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 48/55] fix: Python bindings did not match the C library and
 did not load

---
 py/embc/memory/buffer.py | 52 +++++++++++++++++++++++++++++-----------
 py/embc/stream/framer.py |  4 ++--
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..5a27281 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -2,13 +2,24 @@
 
 import os
 import ctypes
-from ctypes import cdll, Structure, POINTER, pointer, cast, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
+from ctypes import cdll, Structure, POINTER, pointer, cast, CFUNCTYPE, \
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, c_bool
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
+from embc import lib as embc_lib
 from ..collections.list import embc_list_s
 
 
+# void (*free)(struct embc_buffer_manager_s const * self, struct embc_buffer_s * buffer);
+FREE_FN = CFUNCTYPE(None, c_void_p, c_void_p)
+
+
+class embc_buffer_manager_s(Structure):
+    _fields_ = [
+        ('free', FREE_FN),
+    ]
+
+
 class embc_buffer_s(Structure):
     _fields_ = [
         ('data', POINTER(c_uint8)),
@@ -17,6 +28,8 @@ class embc_buffer_s(Structure):
         ('length', c_uint16),
         ('reserve', c_uint16),
         ('buffer_id', c_uint16),
+        ('flags', c_uint16),
+        ('manager', POINTER(embc_buffer_manager_s)),
         ('item', embc_list_s),
     ]
 
@@ -58,25 +71,36 @@ class embc_buffer_s(Structure):
 
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
-finalize.restype = None
-finalize.argtypes = [c_void_p]
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+_allocator_finalize = _dll.embc_buffer_allocator_finalize
+_allocator_finalize.restype = None
+_allocator_finalize.argtypes = [c_void_p]
+
+
+def finalize(allocator):
+    """Finalize and free an allocator returned by initialize()."""
+    _allocator_finalize(allocator)
+    embc_lib.free(allocator)
+
 
 # struct embc_buffer_s * embc_buffer_alloc(struct embc_buffer_allocator_s * self, embc_size_t size);
 alloc = _dll.embc_buffer_alloc
 alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
-# void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+def free(buffer):
+    """Free a buffer: embc_buffer_free() is inline in C.
+
+    :param buffer: The embc_buffer_s instance or a pointer to it.
+    """
+    b = buffer if isinstance(buffer, embc_buffer_s) else buffer[0]
+    b.manager[0].free(cast(b.manager, c_void_p), ctypes.addressof(b))
+
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
@@ -102,7 +126,7 @@ write_str.argtypes = [POINTER(embc_buffer_s), c_char_p]
 # bool embc_buffer_write_str_truncate(struct embc_buffer_s * buffer,
 #                                     char const * str);
 write_str_truncate = _dll.embc_buffer_write_str_truncate
-write_str_truncate.restype = None
+write_str_truncate.restype = c_bool
 write_str_truncate.argtypes = [POINTER(embc_buffer_s), c_char_p]
 
 # void embc_buffer_write_u8(struct embc_buffer_s * buffer, uint8_t value);
@@ -186,6 +210,6 @@ read_u64_be.argtypes = [POINTER(embc_buffer_s)]
 #                        embc_size_t start,
 #                        embc_size_t end);
 erase = _dll.embc_buffer_erase
-erase.restype = c_void_p
+erase.restype = None
 erase.argtypes = [POINTER(embc_buffer_s), c_size_t, c_size_t]
 
diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 1587805..7c58fdc 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -59,7 +59,7 @@ class embc_framer_port_callbacks_s(Structure):
     ]
 
 HAL_TX_FN = CFUNCTYPE(None, c_void_p, POINTER(embc_buffer_s))
-TIMER_DONE_FN = CFUNCTYPE(None, c_void_p, c_int32)
+TIMER_DONE_FN = CFUNCTYPE(None, c_void_p, c_uint32)
 HAL_TIME_GET_FN = CFUNCTYPE(c_int64, c_void_p)
 HAL_TIMER_SET_FN = CFUNCTYPE(c_int32, c_void_p, c_int64, TIMER_DONE_FN, c_void_p, POINTER(c_uint32))
 HAL_TIMER_CANCEL_FN = CFUNCTYPE(c_int32, c_void_p, c_uint32)
@@ -83,7 +83,7 @@ instance_size.argtypes = []
 #         struct embc_buffer_allocator_s * buffer_allocator,
 #         struct embc_framer_hal_callbacks_s * callbacks);
 initialize = _dll.embc_framer_initialize
-initialize.restype = c_void_p
+initialize.restype = None
 initialize.argtypes = [c_void_p, c_void_p, POINTER(embc_framer_hal_callbacks_s)]
 
 # void embc_framer_register_port_callbacks(
-- 
2.43.0


From 6f0226b32deb8650c27c5851d6609a71ff17ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 49/55] fix: Python list.new() returned nothing

---
 py/embc/collections/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/embc/collections/list.py b/py/embc/collections/list.py
index 6c72462..a25b577 100644
--- a/py/embc/collections/list.py
+++ b/py/embc/collections/list.py
@@ -20,3 +20,4 @@ def reset(i):
 def new():
     i = embc_list_s()
     reset(i)
+    return i
-- 
2.43.0


From 42edeb24437d2be207fcbf7b8535052ff8e0b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 50/55] fix: Python Framer.send() truncated the length of large
 payloads

---
 py/embc/stream/framer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 7c58fdc..a6f8049 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -20,6 +20,7 @@ RX_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, POINTER(embc_buffe
 TX_DONE_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, c_int32)
 MAX_RETRIES = 16
 TIMER_ID = 42
+PAYLOAD_MAX_SIZE = 240
 
 
 class Port0:
@@ -268,6 +269,7 @@ class Framer:
 
     def send(self, port, message_id, port_def, payload):
         payload_len = len(payload)
+        assert(payload_len <= PAYLOAD_MAX_SIZE)
         msg_char = ctypes.create_string_buffer(payload)
         msg = cast(msg_char, POINTER(c_uint8))
         send_payload(self.framer, port, message_id, port_def, msg, payload_len)
-- 
2.43.0


From 98ccec850a7ab537420cc80447d7adfc6c10543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 51/55] fix: tinyprintf ignored the length of octal numbers

---
 third-party/tinyprintf/tinyprintf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/third-party/tinyprintf/tinyprintf.c b/third-party/tinyprintf/tinyprintf.c
index dfb62f7..f60a1bd 100644
--- a/third-party/tinyprintf/tinyprintf.c
+++ b/third-party/tinyprintf/tinyprintf.c
@@ -406,7 +406,17 @@ void tfp_format(void *putp, putcf putf, const char *fmt, va_list va)
                 break;
             case 'o':
                 p.base = 8;
-                ui2a(va_arg(va, unsigned int), &p);
+#ifdef PRINTF_LONG_SUPPORT
+#ifdef PRINTF_LONG_LONG_SUPPORT
+                if (2 == lng)
+                    ulli2a(va_arg(va, unsigned long long int), &p);
+                else
+#endif
+                  if (1 == lng)
+                    uli2a(va_arg(va, unsigned long int), &p);
+                else
+#endif
+                    ui2a(va_arg(va, unsigned int), &p);
                 putchw(putp, putf, &p);
                 break;
             case 'c':
-- 
2.43.0


From 47c0a4e846fd842284cf34262ae9cc0a9a65a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 52/55] fix: memory block allocator handed out memory for sizes
 near INT32_MAX

---
 src/memory/block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 84e36f5..f6312be 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -47,7 +47,7 @@ void embc_mblock_finalize(struct embc_mblock_s * self) {
 }
 
 static inline int32_t size_to_blocks(struct mblock_s * s, int32_t size) {
-    return (size + s->block_size - 1) / s->block_size;
+    return (size / s->block_size) + ((size % s->block_size) ? 1 : 0);
 }
 
 void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
-- 
2.43.0


From e430cef06d1ec5e897917b0aaafee328100928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 53/55] fix: embc_buffer_erase accepted positions that only fit
 after truncation to int

---
 src/memory/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 52c1c3f..1fbbc52 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -340,8 +340,8 @@ void embc_buffer_erase(struct embc_buffer_s * buffer,
                        embc_size_t start,
                        embc_size_t end) {
     EMBC_DBC_NOT_NULL(buffer);
-    EMBC_DBC_RANGE_INT(start, 0, buffer->length - 1);
-    EMBC_DBC_RANGE_INT(end, 0, buffer->length);
+    EMBC_ASSERT((start >= 0) && (start < buffer->length));
+    EMBC_ASSERT((end >= 0) && (end <= buffer->length));
     embc_size_t length = end - start;
     if (length > 0) {
         for (embc_size_t k = start; k < (buffer->length - length); ++k) {
-- 
2.43.0


From b2ca8354996ada644e6d77db5d768efc1503a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 54/55] fix: buffer_log_check did not recognise unchecked
 allocations, frees and null pointers

---
 py/bin/buffer_log_check.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/py/bin/buffer_log_check.py b/py/bin/buffer_log_check.py
index 474d4ef..f15635b 100644
--- a/py/bin/buffer_log_check.py
+++ b/py/bin/buffer_log_check.py
@@ -6,6 +6,7 @@ Check the log files for buffer alloc/free pairs.
 """
 
 import argparse
+import re
 import sys
 
 
@@ -28,8 +29,13 @@ class Alloc:
         return '%s: alloc on line %s, free on line %s' % (self.ptr, self.alloc_line, self.free_line)
 
 
-ALLOC = 'embc_buffer_alloc'
-FREE = 'embc_buffer_free'
+ALLOC = re.compile(r'embc_buffer_alloc(?:_unsafe)?\s+(\S+)')
+FREE = re.compile(r'embc_buffer_free_?\s*(?:\([^,]*,\s*([^\s)]+)\)|([^\s(]+))')
+
+
+def is_null(ptr):
+    # The format of a null %p differs between platforms.
+    return not ptr.lower().replace('0x', '').strip('0') or ptr.strip('()') in ('nil', 'null')
 
 
 def run():
@@ -39,9 +45,11 @@ def run():
     line_num = 0
     for line in args.logfile:
         line_num += 1
-        alloc_idx = line.find(ALLOC)
-        if alloc_idx >= 0:
-            ptr = line[alloc_idx + len(ALLOC) + 1:-1]
+        alloc = ALLOC.search(line)
+        if alloc:
+            ptr = alloc.group(1)
+            if is_null(ptr):  # allocation failed
+                continue
             b = buffers.get(ptr)
             if b is not None:
                 print('line %d: alloc without free: %s' % (line_num, b))
@@ -49,9 +57,9 @@ def run():
             buffers[ptr] = b
             ptr_history[ptr] = b
             continue
-        free_idx = line.find(FREE)
-        if free_idx >= 0:
-            ptr = line[free_idx + len(FREE) + 1:-1]
+        free = FREE.search(line)
+        if free:
+            ptr = free.group(1) or free.group(2)
             b = buffers.get(ptr)
             if b is None:
                 b = ptr_history.get(ptr)
-- 
2.43.0


From 32bb574ae21871411787cbac3d93e9a50f5e3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 55/55] fix: framer_qual counted answered pings as missing when
 a transmit acknowledgement was late

---
 py/bin/framer_qual.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 7159439..d4247af 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -180,13 +180,17 @@ class PingQueue:
     def _rx_pending_count(self):
         return len([msg for msg in self._queue if not msg.response_received])
 
+    def _rx_pending(self):
+        return [msg for msg in self._queue if not msg.response_received]
+
     def _ping_rx_resync(self, message_id, data):
-        for idx in range(len(self._queue)):
-            msg = self._queue[idx]
+        pending = self._rx_pending()
+        for idx, msg in enumerate(pending):
             if msg.message_id == message_id and msg.payload == data:
                 log.info('resync message_id=%d to index %d', message_id, idx)
                 self._frames_missing += idx
-                del self._queue[:idx]
+                missing = pending[:idx]
+                self._queue = [m for m in self._queue if m not in missing]
                 return msg
         log.warning('rx resync failed message_id=%d (frame from previous ping session?)',
                     message_id)
@@ -196,7 +200,8 @@ class PingQueue:
         if 0 == self._rx_pending_count(): # error
             log.warning("rx ping response %d, but not expected" % message_id)
             return
-        msg = self._queue[0]
+        # frames with a response may still wait for tx_done
+        msg = self._rx_pending()[0]
         if msg.message_id != message_id:
             log.debug('rx ping response message_id mismatch: expected %d != received %d',
                       msg.message_id, message_id)
-- 
2.43.0

