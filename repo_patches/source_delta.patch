From 330b8ed26d0b3338faf5ea4125e5751489d3c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 01/96] fix: zpl_memswap of 1,2,3,5,6 or 7 bytes advanced both
 pointers twice per byte, swapped nothing and accessed memory past both ranges

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..15ac168 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            for (; size--; a++, b++) { zpl_swap(zpl_u8, *a, *b); }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From 168c89699ded75f0b98063b320b5d1889e79a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 02/96] fix: zpl_bit_get reported bits 8..31 as clear because
 the masked value was truncated to 8 bits

---
 code/header/core/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..e5f3608 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -59,7 +59,7 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
 }
 
 ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1u << bit)) != 0; }
 ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
-- 
2.43.0


From 1468762fc23e0b5cd7fb3fbe30d443f44d68694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 03/96] fix: with heap analysis enabled, blocks requested with
 an alignment of 64 or more were not aligned

---
 code/source/essentials/memory_custom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..c0d5ae0 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
+        zpl_isize alloc_info_remainder = track_size - alloc_info_size;
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
-- 
2.43.0


From ebfef80ffec462b640e6df8a0c49fe3b21da5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 04/96] fix: with heap analysis enabled, an allocation the
 system refused dereferenced a null pointer

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c0d5ae0..200e1c0 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -145,7 +145,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
+        if (type == ZPL_ALLOCATION_ALLOC && ptr != NULL) {
             zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
-- 
2.43.0


From d76343fd02a3f39c2e094e5ecd46089212000979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 05/96] fix: arena allocation ignored alignment padding, so
 blocks could extend past the arena's memory (and fitting requests were
 refused)

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 200e1c0..3d9eb96 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,7 +172,7 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size = size + zpl_arena_alignment_of(arena, alignment);
 
             // NOTE: Out of memory
             if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
-- 
2.43.0


From af3d499745294b05b2046cfbef04363411beee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 06/96] fix: an arena whose backing allocator had no memory
 handed out addresses near null

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..6b6742c 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -338,7 +338,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
-- 
2.43.0


From f78eed4268d2834a49a301d0d9f4a1bcaea0f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 07/96] fix: pool blocks were not aligned as requested when the
 block size is no multiple of the alignment, and blocks with less than 8 bytes
 of stride corrupted their neighbours

---
 code/source/essentials/memory_custom.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 3d9eb96..3fa2bae 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -216,7 +216,8 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    // NOTE: Free blocks hold the link of the free list
+    actual_block_size = zpl_align_forward_i64(zpl_max(block_size, zpl_size_of(zpl_uintptr)), block_align);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
@@ -271,7 +272,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl_align_forward_i64(zpl_max(pool->block_size, zpl_size_of(zpl_uintptr)), pool->block_align);
             pool->total_size = 0;
 
             // NOTE: Init intrusive freelist
-- 
2.43.0


From 7e33d3fdf956dfba7cda27f0eb1b751aa36e9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 08/96] fix: the scratch allocator did not account for its
 headers and compared single points instead of ranges: blocks overlapped live
 blocks, crossed the end of the buffer, and a refused request wrote to null

---
 code/source/essentials/memory_custom.c | 60 +++++++++++++++-----------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 3fa2bae..f43e901 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -303,10 +303,13 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
-    s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    // NOTE: Keep the allocation headers aligned
+    zpl_isize align = zpl_size_of(zpl_allocation_header_ev);
+    s->physical_start = zpl_align_forward(start, align);
+    s->total_size = (size - zpl_pointer_diff(start, s->physical_start)) / align * align;
+    if (s->total_size < 0) s->total_size = 0;
+    s->alloc_point = s->physical_start;
+    s->free_point = s->physical_start;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -329,30 +332,37 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *pt = s->alloc_point;
-            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
-            void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            void *start = s->physical_start;
+            void *end = zpl_pointer_add(start, s->total_size);
+            void *pt, *data;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
-
-            // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
-                data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
-            }
+            size = zpl_align_forward_i64(zpl_max(size, 1), zpl_size_of(zpl_allocation_header_ev));
+
+            // NOTE: Nothing is in use, start over
+            if (s->free_point == s->alloc_point) s->free_point = s->alloc_point = start;
+
+            pt = s->alloc_point;
+            data = zpl_align_forward(zpl_pointer_add(pt, zpl_size_of(zpl_allocation_header_ev)), alignment);
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
-                s->alloc_point = cast(zpl_u8 *) pt;
-                ptr = data;
+            if (s->alloc_point < s->free_point) {
+                if (zpl_pointer_diff(data, s->free_point) <= size) break;
+            } else if (zpl_pointer_diff(data, end) < size) {
+                // NOTE: Wrap around
+                pt = start;
+                data = zpl_align_forward(zpl_pointer_add(pt, zpl_size_of(zpl_allocation_header_ev)), alignment);
+                if (zpl_pointer_diff(data, s->free_point) <= size) break;
+
+                if (s->alloc_point != end) {
+                    zpl_allocation_header_ev *rest = cast(zpl_allocation_header_ev *) s->alloc_point;
+                    rest->size = zpl_pointer_diff(rest, end) | ZPL_ISIZE_HIGH_BIT;
+                }
             }
 
+            s->alloc_point = zpl_pointer_add(data, size);
+            zpl_allocation_header_fill(cast(zpl_allocation_header_ev *) pt, data, zpl_pointer_diff(pt, s->alloc_point));
+            ptr = data;
+
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
 
@@ -371,8 +381,8 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
+                        if (s->free_point == end && s->alloc_point != end) s->free_point = s->physical_start;
                     }
                 }
             }
-- 
2.43.0


From 08cca39157efdafb937ba06ece48b7660d7c0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 09/96] fix: stack allocator blocks were misaligned by 8 bytes
 and growing recorded the distance between the old and new memory as its size

---
 code/source/essentials/memory_custom.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index f43e901..f7c56e1 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -413,20 +413,19 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
             void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+                zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
 
-            if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
+            if (zpl_pointer_diff(s->physical_start, curr) + size > cast(zpl_isize) s->total_size) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    zpl_isize new_size = s->total_size + ZPL_STACK_ALLOC_OFFSET + alignment + size;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = new_size;
+                    curr = zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
@@ -434,8 +433,7 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
             s->allocated = zpl_pointer_diff(s->physical_start, curr) + size;
 
-            *(zpl_u64 *)curr = alloc_offset;
-            curr = zpl_pointer_add(curr, ZPL_STACK_ALLOC_OFFSET);
+            zpl_memcopy(zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET), &alloc_offset, ZPL_STACK_ALLOC_OFFSET);
 
             ptr = curr;
         } break;
@@ -445,7 +443,8 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
                 void *curr = old_memory;
                 curr = zpl_pointer_sub(curr, ZPL_STACK_ALLOC_OFFSET);
 
-                zpl_u64 alloc_offset = *(zpl_u64 *)curr;
+                zpl_u64 alloc_offset;
+                zpl_memcopy(&alloc_offset, curr, ZPL_STACK_ALLOC_OFFSET);
                 s->allocated = (zpl_usize)alloc_offset;
             }
         } break;
-- 
2.43.0


From d254851153ee46c5128dd4f54394348e308ff6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 10/96] fix: a stack allocator over caller's memory was left
 with an uninitialised backing allocator, which growing and releasing it then
 called

---
 code/header/essentials/memory_custom.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 6b6742c..d347c40 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
-- 
2.43.0


From d2cbdd2600a6ad8ff1e898bb319210cf6699c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 11/96] fix: a ring's get_array(n) returned at most n-1
 elements

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..5645442 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 421535f3b38226e8c06f13cda5aafa7bc2800805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 12/96] fix: inserting before or removing in front of a list
 node left that node's back link pointing at the wrong or removed node

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..d681a70 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        item->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 3cb4b3b40f98d1fc692e16bf9d476ed80dcd457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 13/96] fix: zpl_char_to_hex_digit gave the letters a..f the
 values 0..5

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..72665fc 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From d10dc93affcd1cbbb898785810908868aa054890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/96] fix: zpl_strncmp ordered different strings by their
 addresses instead of their contents

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 72665fc..ef47b4c 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -302,7 +302,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return ((*(zpl_u8 *)s1 < *(zpl_u8 *)s2) ? -1 : +1);
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From 90f05f358f527ea85f13db9e1d9e638105800915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 15/96] fix: zpl_strcpy and zpl_strcat did not terminate the
 destination (and directory info kept an unterminated path)

---
 code/header/core/string.h    | 2 ++
 code/source/core/file_misc.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index ef47b4c..b1b0c1a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..f0891aa 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -354,7 +354,7 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
     zpl_strcpy((char *)dir->fullpath, path);
 
 
-- 
2.43.0


From 275ddd583c3733fc5c563ce4515a7b5a2ab94042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 16/96] fix: zpl_strdup of a string longer than the maximum
 cleared memory with a negative length, and one of exactly the maximum was not
 terminated

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index b1b0c1a..8a1da39 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -426,10 +426,10 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (!dest) return NULL;
     zpl_strncpy(dest, src, max_len);
+    dest[max_len] = '\0';
 
     return dest;
 }
-- 
2.43.0


From 9c1c010c31b2b61f12f76c3095f66d8fcad5168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 17/96] fix: zpl_strntok did not terminate a token as long as
 the buffer or longer and dropped the character after it

---
 code/header/core/string.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 8a1da39..6e45b03 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -320,15 +320,13 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
-    *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL) {
+        if (--len <= 0) break; // NOTE: keep room for the terminator
         *output++ = *src++;
-        len --;
     }
 
-    if (len > 0)
-        *output = 0;
-    return *src ? src + 1 : src;
+    *output = 0;
+    return (*src && len > 0) ? src + 1 : src;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_char_is_control(char c) {
-- 
2.43.0


From 8aed80a8f8c0be6bb6466901829aa62cb9372637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 18/96] fix: zpl_str_split_lines ran past the end of a text
 whose last line has no newline, and looked before the start of one beginning
 with a newline

---
 code/header/core/string.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 6e45b03..e9e18ed 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -437,14 +437,12 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
     zpl_array_init(lines, alloc);
 
     while (*p) {
-        if (*pd == '\n') {
+        if (*pd == '\n' || *pd == '\0') {
+            zpl_b32 is_last = (*pd == '\0');
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
-            }
-            zpl_array_append(lines, p);
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!strip_whitespace || *p) zpl_array_append(lines, p);
+            if (is_last) break;
             p = pd + 1;
         }
         ++pd;
-- 
2.43.0


From 476a66f9b93fcf247a1d6047e16377ab64ea4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 19/96] fix: skipping to a delimiter treated one preceded by an
 escaped backslash as escaped, looked before the start of the text, and ran
 past its end after a trailing backslash

---
 code/header/core/string.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index e9e18ed..740545e 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -339,7 +339,10 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    while (*str && *str != c) {
+        if (*str == '\\' && *(str + 1) && zpl_char_is_control(c)) ++str; // NOTE: skip the escaped character
+        ++str;
+    }
 
     return str;
 }
@@ -398,11 +401,10 @@ ZPL_IMPL_INLINE char const *zpl_str_skip_any(char const *str, char const*char_li
 }
 
 ZPL_IMPL_INLINE char const *zpl_str_skip_literal(char const *str, char c) {
-    if (*str == '\0' || *str == c)
-        return str;
-    str++;
-
-    while ((*str && *str != c) || (*str == c && *(str-1) == '\\')) { ++str; }
+    while (*str && *str != c) {
+        if (*str == '\\' && *(str + 1)) ++str; // NOTE: skip the escaped character
+        ++str;
+    }
     return str;
 }
 
-- 
2.43.0


From 4796232eb5ffa5e08ac075563c8f0d6cfd85435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 20/96] fix: formatted printing wrote past the given size
 (literal text, %r, floats, upper/lower casing), dropped output that did not
 fit instead of truncating it, printed negative %o/%zd values, zero padding,
 integer precision, very large, infinite and left-aligned reals wrongly;
 printing more than 64 KiB to a file or an allocated buffer was dropped; and
 zpl_strlcpy did not terminate

---
 code/header/core/string.h |   2 +-
 code/source/core/print.c  | 298 ++++++++++++++++++++++----------------
 2 files changed, 173 insertions(+), 127 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 740545e..7f7f10a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -275,7 +275,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlcpy(char *dest, const char *source, zpl_isize
     if (source) {
         const char *source_start = source;
         char *str = dest;
-        while (len > 0 && *source) {
+        while (len > 1 && *source) {
             *str++ = *source++;
             len--;
         }
diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..7a97fea 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -3,6 +3,8 @@
 
 ZPL_BEGIN_C_DECLS
 
+zpl_internal zpl_isize zpl__vformat(char *text, zpl_isize max_len, char const *fmt, va_list va);
+
 zpl_isize zpl_printf_va(char const *fmt, va_list va) {
     return zpl_fprintf_va(zpl_file_get_standard(ZPL_FILE_STANDARD_OUTPUT), fmt, va);
 }
@@ -13,8 +15,17 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
-    zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
-    zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
+    char *text = buf;
+    zpl_isize len;
+    zpl_b32 res;
+    va_list va_again;
+    va_copy(va_again, va);
+    len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
+    if (len < 0) len = zpl_asprintf_va(zpl_heap_allocator(), &text, fmt, va_again);
+    va_end(va_again);
+    if (len < 0) return -1;
+    res = zpl_file_write(f, text, len - 1); // NOTE: prevent extra whitespace
+    if (text != buf) zpl_mfree(text);
     return res ? len : -1;
 }
 
@@ -28,9 +39,18 @@ zpl_isize zpl_asprintf_va(zpl_allocator allocator, char **buffer, char const *fm
     zpl_local_persist zpl_thread_local char tmp[ZPL_PRINTF_MAXLEN];
     ZPL_ASSERT_NOT_NULL(buffer);
     zpl_isize res;
-    res = zpl_snprintf_va(tmp, zpl_size_of(tmp), fmt, va);
-    *buffer = zpl_alloc_str(allocator, tmp);
-    return res;
+    va_list va_again;
+    va_copy(va_again, va);
+    res = zpl__vformat(tmp, zpl_size_of(tmp), fmt, va) + 1;
+    *buffer = cast(char *) zpl_alloc(allocator, res);
+    if (*buffer) {
+        if (res <= zpl_size_of(tmp))
+            zpl_memcopy(*buffer, tmp, res);
+        else
+            zpl__vformat(*buffer, res, fmt, va_again);
+    }
+    va_end(va_again);
+    return *buffer ? res : -1;
 }
 
 zpl_isize zpl_printf(char const *fmt, ...) {
@@ -122,54 +142,38 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: Appends a character if it still fits in front of the terminator, the position always advances.
+#define zpl__print_put(text, max_len, pos, c)                                                                          \
+    do {                                                                                                               \
+        if ((pos) + 1 < (max_len)) (text)[(pos)] = (c);                                                                \
+        (pos)++;                                                                                                       \
+    } while (0)
+
+// NOTE: All printing routines below write at most (max_len - 1) characters and return the length of the whole output.
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
+    zpl_isize res = 0, len = 0, padding = 0, i;
+    char pad;
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
-    if (info && info->precision >= 0)
-        len = zpl_strnlen(str, info->precision);
+    if (info->precision >= 0)
+        while (len < info->precision && str[len]) len++;
     else
         len = zpl_strlen(str);
 
-    if (info && (info->width == 0 && info->flags & ZPL_FMT_WIDTH)) {
+    if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) {
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
+    padding = info->width - len;
+    pad = ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS)) ? '0' : ' ';
 
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
-
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+    if (!(info->flags & ZPL_FMT_MINUS)) {
+        for (; padding > 0; padding--) zpl__print_put(text, max_len, res, pad);
     }
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
-    }
+    for (i = 0; i < len; i++) zpl__print_put(text, max_len, res, str[i]);
+    for (; padding > 0; padding--) zpl__print_put(text, max_len, res, pad);
 
     return res;
 }
@@ -182,115 +186,157 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
     zpl_isize res = 0;
-    zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
-    res = rem;
-    while (rem-- > 0) *text++ = arg;
+    zpl_i32 rem = info->width > 0 ? info->width : 1;
+    while (rem-- > 0) zpl__print_put(text, max_len, res, arg);
+
+    return res;
+}
+
+zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__format_info *info, char *num) {
+    zpl_isize res = 0, len, zeroes = 0, padding;
+    zpl_b32 negative = (*num == '-');
+
+    if (info->width == 0 && info->flags & ZPL_FMT_WIDTH) {
+        return res;
+    }
+
+    if (info->flags & ZPL_FMT_UPPER)
+        zpl_str_to_upper(num);
+    else if (info->flags & ZPL_FMT_LOWER)
+        zpl_str_to_lower(num);
+
+    if (negative) num++;
+    len = zpl_strlen(num);
+
+    if (info->precision > len) zeroes = info->precision - len;
+    padding = info->width - (len + zeroes + (negative ? 1 : 0));
+
+    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS) && info->precision < 0 && padding > 0) {
+        zeroes = padding;
+        padding = 0;
+    }
+
+    if (!(info->flags & ZPL_FMT_MINUS)) {
+        for (; padding > 0; padding--) zpl__print_put(text, max_len, res, ' ');
+    }
+
+    if (negative) zpl__print_put(text, max_len, res, '-');
+    for (; zeroes > 0; zeroes--) zpl__print_put(text, max_len, res, '0');
+    while (*num) { zpl__print_put(text, max_len, res, *num); num++; }
+    for (; padding > 0; padding--) zpl__print_put(text, max_len, res, ' ');
 
     return res;
 }
 
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
     char num[130];
-    zpl_i64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    zpl_i64_to_str(value, num, info->base);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 value) {
     char num[130];
-    zpl_u64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    zpl_u64_to_str(value, num, info->base);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
+    char num[320]; // NOTE: integral digits of any finite value, or its name
+    zpl_isize res = 0, precision = info->precision < 0 ? 6 : info->precision, len, padding, zeroes = 0, i;
+    zpl_f64 frac = 0;
+    zpl_b32 has_point = false;
+    char sign = 0;
 
-    if (arg) {
-        zpl_u64 value;
-        if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
-            arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
-        }
+    zpl_unused(is_hexadecimal);
 
-        value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
+    if (arg == 0) precision = 0; // NOTE: zero is always printed as a single digit
 
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-        arg -= value;
-
-        if (info->precision < 0) info->precision = 6;
-
-        if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-            while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
-            }
-        }
+    if (arg < 0) {
+        sign = '-';
+        arg = -arg;
+    } else if (info->flags & ZPL_FMT_PLUS) {
+        sign = '+';
+    }
+
+    if (arg != arg) {
+        zpl_strcpy(num, "nan");
+    } else if (arg > ZPL_F64_MAX) {
+        zpl_strcpy(num, "inf");
     } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
-        if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+        // NOTE: the value is (mantissa * 2^shift), values without a fraction are multiplied out in decimal
+        zpl_i32 shift = 0;
+        while (arg >= 9007199254740992.0 /* 2^53 */) { arg *= 0.5; shift++; }
+        zpl_u64_to_str(cast(zpl_u64) arg, num, 10);
+        if (shift == 0) frac = arg - cast(zpl_f64) cast(zpl_u64) arg;
+        while (shift-- > 0) {
+            zpl_i32 carry = 0;
+            len = zpl_strlen(num);
+            for (i = len - 1; i >= 0; i--) {
+                zpl_i32 digit = (num[i] - '0') * 2 + carry;
+                num[i] = cast(char)('0' + digit % 10);
+                carry = digit / 10;
+            }
+            if (carry) {
+                zpl_memmove(num + 1, num, len + 1);
+                num[0] = cast(char)('0' + carry);
+            }
         }
+        has_point = (info->flags & ZPL_FMT_ALT) || precision > 0;
     }
 
-    width = info->width - (text - text_begin);
-    if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
+    len = zpl_strlen(num) + (sign ? 1 : 0);
+    if (zpl_char_is_digit(*num)) len += (has_point ? 1 : 0) + precision;
+    padding = info->width - len;
 
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
+    if ((info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS) && zpl_char_is_digit(*num) && padding > 0) {
+        zeroes = padding;
+        padding = 0;
+    }
 
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+    if (!(info->flags & ZPL_FMT_MINUS)) {
+        for (; padding > 0; padding--) zpl__print_put(text, max_len, res, ' ');
+    }
 
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
+    if (sign) zpl__print_put(text, max_len, res, sign);
+    for (; zeroes > 0; zeroes--) zpl__print_put(text, max_len, res, '0');
+    for (i = 0; num[i]; i++) zpl__print_put(text, max_len, res, num[i]);
+
+    if (zpl_char_is_digit(*num)) {
+        if (has_point) zpl__print_put(text, max_len, res, '.');
+        for (i = 0; i < precision; i++) {
+            zpl_i32 digit;
+            frac *= 10;
+            digit = cast(zpl_i32) frac;
+            frac -= digit;
+            zpl__print_put(text, max_len, res, cast(char)('0' + digit));
         }
     }
 
-    return (text - text_begin);
+    for (; padding > 0; padding--) zpl__print_put(text, max_len, res, ' ');
+
+    return res;
 }
 
-ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
-    char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+// NOTE: Returns the length of the whole output, including the part which didn't fit.
+zpl_internal zpl_isize zpl__vformat(char *text, zpl_isize max_len, char const *fmt, va_list va) {
+    char *text_begin = text;
+    zpl_isize remaining = max_len, total = 0;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%') {
+            zpl__print_put(text_begin, max_len, total, *fmt);
+            fmt++;
+        }
+        if (!*fmt) break;
+        text = text_begin + zpl_min(total, max_len);
+        remaining = max_len - zpl_min(total, max_len);
 
-        if (*fmt == '%') {
+        {
             do {
                 switch (*++fmt) {
                 case '-': {info.flags |= ZPL_FMT_MINUS; break;}
@@ -330,7 +376,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             } else {
                 info.precision = cast(zpl_i32) zpl_str_to_i64(fmt, cast(char **) & fmt, 10);
             }
-            info.flags &= ~ZPL_FMT_ZERO;
         }
 
         switch (*fmt++) {
@@ -355,8 +400,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             break;
 
             case 'z': // NOTE: zpl_usize
-                info.flags |= ZPL_FMT_UNSIGNED;
-                // fallthrough
             case 't': // NOTE: zpl_isize
                 info.flags |= ZPL_FMT_SIZE;
                 break;
@@ -371,7 +414,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
@@ -441,16 +487,16 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             }
         }
 
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        total += len;
     }
 
-    *text++ = '\0';
-    res = (text - text_begin);
-    return (res >= max_len || res < 0) ? -1 : res;
+    if (max_len > 0) text_begin[zpl_min(total, max_len - 1)] = '\0';
+    return total;
+}
+
+ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
+    zpl_isize len = zpl__vformat(text, max_len, fmt, va);
+    return (len >= max_len) ? -1 : len + 1;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 20daee066b2ba6454b6537af078d412fae72a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 21/96] fix: zpl_utf8_strnlen read one byte past a text of the
 given length

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 7f7f10a..34509dc 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -207,7 +207,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len) {
     zpl_isize count = 0;
-    for (; *str && max_len > 0; count++) {
+    for (; max_len > 0 && *str; count++) {
         zpl_u8 c = *str;
         zpl_isize inc = 0;
         if (c < 0x80)
-- 
2.43.0


From b138a241001d79d6b486691d75880c09c7bed92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 22/96] fix: zpl_ucs2_to_utf8 combined a high surrogate with
 any following unit, running past the terminator when it came last

---
 code/source/core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..45568c7 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -282,6 +282,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
             str += 1;
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
+            if (str[1] < 0xdc00 || str[1] > 0xdfff) return NULL;
             if (i + 4 > len) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
-- 
2.43.0


From 64279d41c90fd8a5c1ab8d8f2d85eb15a1c35608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 23/96] fix: zpl_utf8_codepoint_size reported 1 for every
 multi-byte code point

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 45568c7..d7fbd8d 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -405,11 +405,11 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
 }
 
 zpl_isize zpl_utf8_codepoint_size(zpl_u8 const *str, zpl_isize str_len) {
-    zpl_isize i = 0;
+    zpl_isize i = 1;
     for (; i < str_len && str[i]; i++) {
         if ((str[i] & 0xc0) != 0x80) break;
     }
-    return i + 1;
+    return i;
 }
 
 zpl_isize zpl_utf8_encode_rune(zpl_u8 buf[4], zpl_rune r) {
-- 
2.43.0


From 56e96feff16fee70174f1fed0f170178a5a29e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 24/96] fix: parsing integers accepted digits beyond the base
 and missed the hexadecimal prefix of negative numbers

---
 code/source/core/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index d7fbd8d..e2e6c1b 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -29,6 +29,8 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
         else
             break;
 
+        if (v >= base) break;
+
         result *= base;
         result += v;
         text++;
@@ -58,6 +60,8 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
             break;
         }
 
+        if (v >= cast(zpl_u64) base) break;
+
         result *= base;
         result += v;
         text++;
@@ -90,7 +94,8 @@ zpl_i64 zpl_str_to_i64(const char *str, char **end_ptr, zpl_i32 base) {
     zpl_i64 value;
 
     if (!base) {
-        if ((zpl_strlen(str) > 2) && (zpl_strncmp(str, "0x", 2) == 0))
+        const char *digits = (*str == '-') ? str + 1 : str;
+        if ((zpl_strlen(digits) > 2) && (zpl_strncmp(digits, "0x", 2) == 0))
             base = 16;
         else
             base = 10;
@@ -114,10 +119,9 @@ void zpl_i64_to_str(zpl_i64 value, char *string, zpl_i32 base) {
 
     if (value < 0) {
         negative = true;
-        value = -value;
     }
 
-    v = cast(zpl_u64) value;
+    v = negative ? (0 - cast(zpl_u64) value) : cast(zpl_u64) value;
     if (v != 0) {
         while (v > 0) {
             *buf++ = zpl__num_to_char_table[v % base];
-- 
2.43.0


From 9fcd95d86b4adebeb368b68806527157e522c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 25/96] fix: memory streams read past their end, wrote in front
 of or beyond it with negative lengths when the offset lay past the end, and
 reading or writing less than asked moved the position by the whole amount

---
 code/header/core/file.h        | 10 ++++++----
 code/source/core/file_stream.c | 32 +++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..d38778f 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -382,15 +382,17 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_read = size;
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    if (result) zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_written = size;
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    if (result) zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..8a54793 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -63,7 +66,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->alloc = allocator;
     d->flags = flags;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
@@ -103,6 +109,8 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
+    if (offset < 0 || size < 0) return false;
+    size = offset < d->cap ? zpl_min(size, cast(zpl_isize)(d->cap - offset)) : 0;
     zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
@@ -112,25 +120,23 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0) return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if(zpl_array_capacity(d->buf) < new_cap) {
+        zpl_isize new_cap = zpl_max(buflen, cast(zpl_isize)(offset + size));
+        if (size == 0) new_cap = buflen;
+        if (zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
-    }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
-
-    if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
-        zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
+        // NOTE: writing past the end leaves a gap of zeros behind
+        if (new_cap > buflen && offset > buflen) zpl_memset(d->buf + buflen, 0, cast(zpl_isize)(offset - buflen));
         d->cap = zpl_array_count(d->buf) = new_cap;
     } else {
-        extralen = 0;
+        size = offset < buflen ? zpl_min(size, cast(zpl_isize)(buflen - offset)) : 0;
     }
+    if (size > 0) zpl_memcopy(d->buf + offset, buffer, size);
 
-    if (bytes_written) *bytes_written = (rwlen+extralen);
+    if (bytes_written) *bytes_written = size;
     return true;
 }
 
-- 
2.43.0


From 451ae6e3c9f5c8477d239c5688a5e0494437b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 26/96] fix: opening a missing file reported 'invalid' instead
 of 'does not exist' (all open errors did), and writing whole contents
 reported success for a partial write and left the error unset on failure

---
 code/source/core/file.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..f3bfbc1 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -212,7 +212,13 @@ ZPL_BEGIN_C_DECLS
 
         fd->i = open(filename, os_mode, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
         if (fd->i < 0) {
-            // TODO: More file errors
+            switch (errno) {
+                case ENOENT: return ZPL_FILE_ERROR_NOT_EXISTS;
+                case EEXIST: return ZPL_FILE_ERROR_EXISTS;
+                case EPERM:
+                case EACCES: return ZPL_FILE_ERROR_PERMISSION;
+                case ENAMETOOLONG: return ZPL_FILE_ERROR_NAME_TOO_LONG;
+            }
             return ZPL_FILE_ERROR_INVALID;
         }
 
@@ -474,8 +480,11 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
         return false;
     }
 
-    write_ok = zpl_file_write(&f, buffer, size);
+    zpl_isize bytes_written = 0;
+    write_ok = zpl_file_write_at_check(&f, buffer, size, 0, &bytes_written) && bytes_written == size;
     zpl_file_close(&f);
+    if (err)
+        *err = write_ok ? ZPL_FILE_ERROR_NONE : ZPL_FILE_ERROR_UNKNOWN;
     return write_ok;
 }
 
-- 
2.43.0


From efee944a3fe243c8422b11eee08082fc1629a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 27/96] fix: directory listings dropped names beginning with
 two dots and left every directory open; copying ignored do-not-overwrite, did
 not shorten the target and went on after failing to open; last write times
 were never read; sockets and block devices were reported as folders;
 directory info of a file used a 128-byte unterminated buffer; the full-name
 function gave the C library's memory to the caller's allocator; the extension
 was searched in directory names

---
 code/header/core/file_misc.h |  5 +--
 code/source/core/file_misc.c | 62 ++++++++++++++++++++++++------------
 2 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/code/header/core/file_misc.h b/code/header/core/file_misc.h
index 8e46a03..5f732b0 100644
--- a/code/header/core/file_misc.h
+++ b/code/header/core/file_misc.h
@@ -134,9 +134,10 @@ ZPL_IMPL_INLINE char const *zpl_path_base_name(char const *path) {
 }
 
 ZPL_IMPL_INLINE char const *zpl_path_extension(char const *path) {
-    char const *ld;
+    char const *ld, *ls;
     ZPL_ASSERT_NOT_NULL(path);
-    ld = zpl_char_last_occurence(path, '.');
+    ls = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
+    ld = zpl_char_last_occurence(ls ? ls : path, '.');
     return (ld == NULL) ? NULL : ld + 1;
 }
 
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index f0891aa..638ca34 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
@@ -113,23 +113,38 @@ ZPL_BEGIN_C_DECLS
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    else
-        int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        struct stat stat_existing, stat_new;
+        zpl_b32 result = false;
+        int new_fd, existing_fd = open(existing_filename, O_RDONLY, 0);
+        if (existing_fd < 0) return false;
+
+        if (fstat(existing_fd, &stat_existing) != 0 || S_ISDIR(stat_existing.st_mode)) {
+            close(existing_fd);
+            return false;
+        }
 
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode);
+        if (new_fd < 0) {
+            close(existing_fd);
+            return false;
+        }
 
+        if (fstat(new_fd, &stat_new) == 0 && stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino) {
+            result = true; // NOTE: the file is its own copy
+        } else if (!S_ISREG(stat_new.st_mode) || ftruncate(new_fd, 0) == 0) {
 #    if defined(ZPL_SYSTEM_FREEBSD)
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
+            result = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0) == stat_existing.st_size;
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+            zpl_isize size = 1, total = 0;
+            while (total < stat_existing.st_size && (size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - total)) > 0) total += size;
+            result = total == stat_existing.st_size;
 #    endif
+        }
 
-        close(new_fd);
+        if (close(new_fd) != 0) result = false;
         close(existing_fd);
 
-        return size == stat_existing.st_size;
+        return result;
 #    endif
     }
 
@@ -201,9 +216,11 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    if (p) free(p); // NOTE: allocated by the C library
 
     return result;
 #endif
@@ -273,14 +290,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -290,9 +307,10 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
@@ -413,7 +431,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
@@ -432,17 +450,21 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    char *parent = NULL;
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        zpl_isize len = slash ? zpl_max(slash-path, 1) : 1; // NOTE: the root or the working directory have a single character
+        parent = (char *)zpl_malloc(len + 1);
+        zpl_memcopy(parent, slash ? path : ".", len);
+        parent[len] = 0;
+        path = parent;
     }
 
     zpl_dirinfo_init(entry->dir_info, path);
+    if (parent) zpl_mfree(parent);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
-- 
2.43.0


From 2f97ede4b4a49df2122cb4ec3e064d0d7c0b4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 28/96] fix: packing cut names to 11 characters, failed on
 directories with subdirectories and ignored write errors; unpacking a
 truncated archive never ended, unterminated name and size fields ran into the
 next field, and entries could escape the target directory through parent
 steps

---
 code/source/core/file_tar.c | 105 ++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 22 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..7a4f4c0 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -25,13 +25,29 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     return res;
 }
 
-zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
-    char *out = zpl_bprintf("%*r", cnt, '\0');
-    if (!zpl_file_write(archive, out, cnt))
+zpl_internal zpl_b32 zpl__tar_write(zpl_file *archive, void const *data, zpl_isize cnt) {
+    zpl_i64 pos = zpl_file_tell(archive);
+    zpl_isize written = 0;
+    if (!zpl_file_write_at_check(archive, data, cnt, pos, &written) || written != cnt)
         return 0;
+    zpl_file_seek(archive, pos + cnt);
     return 1;
 }
 
+zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
+    char *out = zpl_bprintf("%*r", cnt, '\0');
+    return zpl__tar_write(archive, out, cnt);
+}
+
+// NOTE: The fields don't have to be terminated
+zpl_internal zpl_i64 zpl__tar_parse_octal(char const *field, zpl_isize len) {
+    zpl_i64 res = 0;
+    zpl_isize i = 0;
+    while (i < len && field[i] == ' ') i++;
+    for (; i < len && field[i] >= '0' && field[i] <= '7'; i++) res = res * 8 + (field[i] - '0');
+    return res;
+}
+
 zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_len) {
     ZPL_ASSERT_NOT_NULL(archive);
     ZPL_ASSERT_NOT_NULL(paths);
@@ -40,6 +56,12 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
         zpl_file file;
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name)) {
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        if (zpl_fs_get_type(paths[i]) == ZPL_DIR_TYPE_FOLDER) {
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
             return -(ZPL_TAR_ERROR_FILE_NOT_FOUND);
@@ -48,14 +70,17 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        zpl_snprintf(hr.name, zpl_size_of(hr.name), "%s", paths[i]);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
-        zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
+        zpl_snprintf(hr.checksum, 8, "%o", cast(zpl_u32)zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl__tar_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -73,7 +98,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
                     break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
+                if (!zpl__tar_write(archive, buf, bytes_read)) {
+                    zpl_file_close(&file);
+                    return -(ZPL_TAR_ERROR_IO_ERROR);
+                }
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
@@ -100,7 +128,11 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
     char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
-    zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
+    zpl_isize count = 0;
+    for (zpl_isize i = 0; i < zpl_array_count(files); i++) {
+        if (zpl_fs_get_type(files[i]) != ZPL_DIR_TYPE_FOLDER) files[count++] = files[i];
+    }
+    zpl_isize err = zpl_tar_pack(archive, files, count);
     zpl_string_free(filelst);
     zpl_array_free(files);
     return err;
@@ -111,30 +143,47 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     ZPL_ASSERT_NOT_NULL(unpack_proc);
 
     zpl_i64 pos = zpl_file_tell(archive);
+    zpl_i64 archive_size = zpl_file_size(archive);
     zpl__tar_header hr = {0};
+    char path[zpl_size_of(hr.name) + 1] = {0};
     zpl_isize err = ZPL_TAR_ERROR_NONE;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read)) {
+            err = ZPL_TAR_ERROR_IO_ERROR;
+            break;
+        }
+        else if (bytes_read == 0) {
+            break; /* no end-of-archive marker */
+        }
+        else if (bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
         else if (*hr.checksum == 0) {
             break;
         }
-        pos = zpl_file_tell(archive);
+        pos += zpl_size_of(hr);
+        zpl_file_seek(archive, pos);
+        zpl_memcopy(path, hr.name, zpl_size_of(hr.name));
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = path;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl__tar_parse_octal(hr.size, zpl_size_of(hr.size));
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        zpl_usize checksum1 = cast(zpl_usize)(zpl__tar_parse_octal(hr.checksum, zpl_size_of(hr.checksum)));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
+        if (rec.length > archive_size - pos) {
+            err = ZPL_TAR_ERROR_IO_ERROR; /* truncated */
+            break;
+        }
+
         rec.error = unpack_proc(archive, &rec, user_data);
 
         if (rec.error > 0) {
@@ -143,7 +192,8 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
@@ -160,7 +210,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
         return 0; /* we only care about regular files */
 
     /* proceed as usual */
-    zpl_printf("name: %s, offset: %d, length: %d\n", file->path, file->offset, file->length);
+    zpl_printf("name: %s, offset: %lld, length: %lld\n", file->path, file->offset, file->length);
     return 0;
 }
 
@@ -171,14 +221,21 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    /* never leave the target directory */
+    for (char const *part = file->path; *part;) {
+        zpl_isize part_len = 0;
+        while (part[part_len] && part[part_len] != '/' && part[part_len] != '\\') part_len++;
+        if (part_len == 2 && part[0] == '.' && part[1] == '.')
+            return 0;
+        part += part_len + (part[part_len] ? 1 : 0);
+    }
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
     zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    if (base_len + len + 2 > ZPL_MAX_PATH)
+        return 1;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -200,7 +257,8 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return 1;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
@@ -214,7 +272,10 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
                 break;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
+            if (!zpl__tar_write(&f, buf, bytes_read)) {
+                zpl_file_close(&f);
+                return 1;
+            }
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-- 
2.43.0


From b5867e31c2bcabe2f4d0cac9bae828c5083026fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 29/96] fix: inserting, removing, moving and swapping tree
 nodes left stale parent links (to the old place of relocated containers), and
 moving a node within its container read and removed the wrong node

---
 code/source/adt.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..3718be6 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -216,6 +216,17 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* nodes are stored by value: whenever they change places, update the links that lead to them */
+zpl_internal void zpl__adt_relink(zpl_adt_node *parent, zpl_isize first) {
+    for (zpl_isize i = first; i < zpl_array_count(parent->nodes); ++i) {
+        zpl_adt_node *node = parent->nodes + i;
+        node->parent = parent;
+        if ((node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) && node->nodes) {
+            for (zpl_isize j = 0; j < zpl_array_count(node->nodes); ++j) { node->nodes[j].parent = node; }
+        }
+    }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -229,9 +240,11 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent, parent->nodes == old_nodes ? index : 0);
     return parent->nodes + index;
 }
 
@@ -273,11 +286,20 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
+    zpl_adt_node moved = *node;
+    zpl_isize old_index = old_parent ? (zpl_pointer_diff(old_parent->nodes, node) / zpl_size_of(zpl_adt_node)) : 0;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
-    *new_node = *node;
-    new_node->parent = new_parent;
+    if (!new_node) return NULL;
+    if (old_parent == new_parent) {
+        /* the node itself might have been relocated */
+        if (index <= old_index) old_index++;
+        node = new_parent->nodes + old_index;
+    }
+    *new_node = moved;
+    zpl__adt_relink(new_parent, index);
     if (old_parent) {
         zpl_adt_remove_node(node);
+        if (old_parent == new_parent && index > old_index) new_node--;
     }
     return new_node;
 }
@@ -301,6 +323,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent, 0);
+    zpl__adt_relink(other_parent, 0);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +333,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent, index);
 }
 
 
-- 
2.43.0


From 77790cef28fbc5a2389fcfe81e288db594c03c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 30/96] fix: searching a tree with unnamed nodes read a null
 name, a query for an unclosed filter stopped the program, and a query segment
 that is no number selected the first array element

---
 code/source/adt.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 3718be6..7b2f83a 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -48,7 +48,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -100,7 +100,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
@@ -144,8 +144,7 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
         l_e2 = (char*)zpl_str_skip(l_p, ']');
 
         if ((!*l_e && node->type != ZPL_ADT_TYPE_ARRAY) || !*l_e2) {
-            ZPL_ASSERT_MSG(0, "Invalid field value lookup");
-            return NULL;
+            return NULL; /* invalid field value lookup */
         }
 
         *l_e2 = 0;
@@ -202,8 +201,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = buf;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &idx_end, 10);
+        if (zpl_char_is_digit(*buf) && *idx_end == 0 && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From 79f2b5d5cb640097594be2acaa4608932db0f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 31/96] fix: number texts longer than 47 characters overran a
 buffer; exponents, hexadecimal digits, fractions and leading zeros gave wrong
 values or wrong printed texts; integers out of range wrapped

---
 code/header/adt.h |  14 ++--
 code/source/adt.c | 200 ++++++++++++++++++++++------------------------
 2 files changed, 102 insertions(+), 112 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..9f6f3a3 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -61,9 +61,9 @@ typedef struct zpl_adt_node {
     /* properties */
     zpl_u8 type        :4;
     zpl_u8 props       :4;
+    zpl_u8 name_style  :2;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     zpl_u8 cfg_mode    :1;
-    zpl_u8 name_style  :2;
     zpl_u8 assign_style:2;
     zpl_u8 delim_style :2;
     zpl_u8 delim_line_width :4;
@@ -82,10 +82,10 @@ typedef struct zpl_adt_node {
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             /* number analysis */
-            zpl_i32 base;
-            zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_i64 base;
+            zpl_i64 base2;
+            zpl_i16 exp;
+            zpl_u8 base2_offset;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
@@ -95,8 +95,8 @@ typedef struct zpl_adt_node {
 
 /* ADT NODE LIMITS
     * delimiter and assignment segment width is limited to 128 whitespace symbols each.
-    * real number limits decimal position to 128 places.
-    * real number exponent is limited to 64 digits.
+    * real number analysis keeps 18 significant digits on each side of the decimal point.
+    * real number analysis limits decimal position to 255 places.
  */
 
 /**
diff --git a/code/source/adt.c b/code/source/adt.c
index 7b2f83a..e5e1959 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -378,138 +378,133 @@ zpl_adt_node *zpl_adt_append_int(zpl_adt_node *parent, char const *name, zpl_i64
 char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
+    zpl_adt_node number = *node;
+    number.type = ZPL_ADT_TYPE_UNINITIALISED;
+    char *e = zpl_adt_parse_number(&number, base_str);
 
-    while (*e)
-        ++e;
-
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
-        ++p;
-    }
-
-    if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
+    if (*e || number.type == ZPL_ADT_TYPE_UNINITIALISED) {
+        return base_str;
     }
 
-    return base_str;
+    *node = number;
+    return e;
 }
 
 char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
+    char *e = base_str;
 
-    zpl_i32 base=0;
-    zpl_i32 base2=0;
-    zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
-    zpl_u8 neg_zero=0;
-    zpl_u8 lead_digit=0;
-    zpl_u8 node_type=0;
-    zpl_u8 node_props=0;
-
-    /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
-        return ++base_str;
-    }
+    zpl_u8 node_type = ZPL_ADT_TYPE_INTEGER;
+    zpl_u8 node_props = ZPL_ADT_PROPS_NONE;
+    zpl_u64 value = 0;
+    zpl_b32 overflow = false;
+    zpl_i32 exp = 0;
 
-    node_type = ZPL_ADT_TYPE_INTEGER;
-    neg_zero = false;
+    zpl_b32 negative = (*e == '-');
+    if (*e == '+' || *e == '-') ++e;
 
-    zpl_isize ib = 0;
-    char buf[48] = { 0 };
-
-    if (*e == '+')
-        ++e;
-    else if (*e == '-') {
-        buf[ib++] = *e++;
-    }
+    char *digits = e, *digits_end = e;
+    char *fraction = NULL, *fraction_end = NULL;
 
-    if (*e == '.') {
-        node_type = ZPL_ADT_TYPE_REAL;
-        node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
-        lead_digit = false;
-        buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
+    if (*e == '0' && (*(e+1) == 'x' || *(e+1) == 'X') && zpl_char_is_hex_digit(*(e+2))) {
+        node_props = ZPL_ADT_PROPS_IS_HEX;
+        for (e += 2; zpl_char_is_hex_digit(*e); ++e) {
+            value = (value << 4) | cast(zpl_u64)zpl_hex_digit_to_int(*e);
+        }
     } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
-
-        /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
-            return ++base_str;
+        for (; zpl_char_is_digit(*e); ++e) {
+            zpl_u64 digit = cast(zpl_u64)(*e - '0');
+            if (value > (ZPL_U64_MAX - digit) / 10) overflow = true;
+            value = value * 10 + digit;
         }
-
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        digits_end = e;
 
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
-            lead_digit = true;
-            zpl_u32 step = 0;
+            node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
+            fraction = e + 1;
+            do { ++e; } while (zpl_char_is_digit(*e));
+            fraction_end = e;
+        }
 
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
+        /* skip false positives and special cases */
+        if (digits == digits_end && fraction == fraction_end) {
+            return *base_str ? base_str + 1 : base_str;
+        }
 
-            if (step < 2) { buf[ib++] = '0'; }
+        char *x = (*e == 'e' || *e == 'E') ? e + 1 : e;
+        if (x != e) {
+            zpl_b32 exp_negative = (*x == '-');
+            if (*x == '+' || *x == '-') ++x;
+            if (zpl_char_is_digit(*x)) {
+                for (e = x; zpl_char_is_digit(*e); ++e) {
+                    if (exp < 10000) exp = exp * 10 + (*e - '0');
+                }
+                if (exp_negative) exp = -exp;
+            }
         }
     }
 
     /* check if we have a dot here, this is a false positive (IP address, ...) */
     if (*e == '.') {
-        return ++base_str;
+        return base_str + 1;
     }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
-
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+    if (node_type == ZPL_ADT_TYPE_INTEGER && node_props != ZPL_ADT_PROPS_IS_HEX) {
+        for (zpl_i32 i = 0; i < exp && value && !overflow; ++i) {
+            if (value > ZPL_U64_MAX / 10) overflow = true;
+            value *= 10;
+        }
+        /* not an integer or out of integer's range */
+        if (overflow || exp < 0 || value > cast(zpl_u64)ZPL_I64_MAX + (negative ? 1 : 0)) {
+            node_type = ZPL_ADT_TYPE_REAL;
+            node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
         }
-
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
     }
 
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+    zpl_i64 base=0;
+    zpl_i64 base2=0;
+    zpl_u8 base2_offset=0;
+    zpl_b32 neg_zero=false;
+    zpl_b32 lead_digit=false;
+#endif
+
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
+        node->integer = cast(zpl_i64)(negative ? 0 - value : value);
+        exp = 0;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
         /* special case: negative zero */
-        if (node->integer == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
+        neg_zero = (negative && node->integer == 0);
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
     } else {
-        node->real = zpl_str_to_f64(buf, 0);
+        node->real = zpl_str_to_f64(base_str, NULL);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        char *q = buf, *base_string = q, *base_string2 = q;
-        base_string = cast(char *)zpl_str_skip(base_string, '.');
-        *base_string = '\0';
-        base_string2 = base_string + 1;
-        char *base_string_off = base_string2;
-        while (*base_string_off++ == '0') base2_offset++;
-
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
+        zpl_isize const max_digits = 18;
+        lead_digit = (digits != digits_end);
+
+        while (digits < digits_end && *digits == '0') ++digits;
+        if (digits_end - digits > max_digits) {
+            /* only the leading digits are significant */
+            exp += cast(zpl_i32)(digits_end - digits - max_digits);
+            digits_end = digits + max_digits;
+            fraction = fraction_end = NULL;
+        }
+        for (char *d = digits; d < digits_end; ++d) base = base * 10 + (*d - '0');
+        if (negative) base = -base;
+
+        for (; fraction < fraction_end && *fraction == '0' && base2_offset < ZPL_U8_MAX; ++fraction) base2_offset++;
+        for (zpl_isize i = 0; i < max_digits && fraction < fraction_end; ++i, ++fraction) base2 = base2 * 10 + (*fraction - '0');
+
         if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
             node_props = ZPL_ADT_PROPS_IS_EXP;
         }
 
         /* special case: negative zero */
-        if (base == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
+        neg_zero = (negative && base == 0);
 #endif
-        while (orig_exp-- > 0) { node->real *= eb; }
     }
 
     node->type = node_type;
@@ -519,16 +514,9 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node->base = base;
     node->base2 = base2;
     node->base2_offset = base2_offset;
-    node->exp = exp;
+    node->exp = cast(zpl_i16)exp;
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
-#else
-    zpl_unused(base);
-    zpl_unused(base2);
-    zpl_unused(base2_offset);
-    zpl_unused(exp);
-    zpl_unused(neg_zero);
-    zpl_unused(lead_digit);
 #endif
     return e;
 }
@@ -571,13 +559,15 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
             } else if (node->props == ZPL_ADT_PROPS_NULL) {
                 zpl__adt_fprintf(file, "null");
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            } else if (node->props == ZPL_ADT_PROPS_IS_EXP) {
-                zpl__adt_fprintf(file, "%lld.%0*d%llde%lld", (long long)node->base, node->base2_offset, 0, (long long)node->base2, (long long)node->exp);
-            } else if (node->props == ZPL_ADT_PROPS_IS_PARSED_REAL) {
-                if (!node->lead_digit)
-                    zpl__adt_fprintf(file, ".%0*d%lld", node->base2_offset, 0, (long long)node->base2);
-                else
-                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long int)node->base2_offset, 0, (int)node->base, (long long)node->base2);
+            } else if (node->props == ZPL_ADT_PROPS_IS_EXP || node->props == ZPL_ADT_PROPS_IS_PARSED_REAL) {
+                if (node->lead_digit || node->props == ZPL_ADT_PROPS_IS_EXP)
+                    zpl__adt_fprintf(file, "%lld", (long long)node->base);
+                zpl__adt_fprintf(file, ".");
+                for (zpl_isize i = 0; i < node->base2_offset; ++i)
+                    zpl__adt_fprintf(file, "0");
+                zpl__adt_fprintf(file, "%lld", (long long)node->base2);
+                if (node->props == ZPL_ADT_PROPS_IS_EXP)
+                    zpl__adt_fprintf(file, "e%lld", (long long)node->exp);
 #endif
             } else {
                 zpl__adt_fprintf(file, "%f", node->real);
-- 
2.43.0


From 742d4fab95de2159172b698378b3d61ce722da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 32/96] fix: writing a string re-escaped characters that were
 already escaped, so each write and parse changed it

---
 code/source/adt.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index e5e1959..598879b 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -593,9 +593,18 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
         return ZPL_ADT_ERROR_NONE;
 
     do {
-        p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
-        if (*p && !!zpl_strchr(escaped_chars, *p)) {
+        zpl_b32 cut_escape = false;
+        while (*p && !zpl_strchr(escaped_chars, *p)) {
+            /* this character is already escaped, do not do it again */
+            if (*p == *escape_symbol) {
+                cut_escape = !*(p+1);
+                if (!cut_escape) p++;
+            }
+            p++;
+        }
+        zpl__adt_fprintf(file, "%.*s", (int)zpl_ptr_diff(b, p), b);
+        if (cut_escape) zpl__adt_fprintf(file, "%s", escape_symbol);
+        if (*p) {
             zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
             p++;
         }
-- 
2.43.0


From 21d85901844cb13bef6a775f693088040813be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 33/96] fix: unterminated strings, names, comments and
 containers in JSON texts were scanned past the end, missing values and
 delimiters were accepted, and failed parses leaked memory and left the text
 modified

---
 code/source/parsers/json.c | 189 ++++++++++++++++++++++++-------------
 1 file changed, 126 insertions(+), 63 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..57b2af8 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+zpl_internal void zpl__json_finish(zpl_adt_node *parent);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -43,6 +44,11 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+
+    /* the text is left untouched if it can't be parsed */
+    if (err_code == ZPL_JSON_ERROR_NONE) {
+        zpl__json_finish(root);
+    }
     return err_code;
 }
 
@@ -54,8 +60,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -69,14 +77,12 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 do {\
 if (!zpl_array_append(x, item)) {\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
+    zpl_adt_destroy_branch(&item);\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
+static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_name_char(char c) { return c && (zpl_char_is_alphanumeric(c) || c == '_'); }
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_delim_char(char c) { return !!zpl_strchr(",|\n", c); }
 static ZPL_ALWAYS_INLINE const char *zpl__json_string_space(zpl_isize indent) { return indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : " "; }
@@ -87,16 +93,21 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err);
 
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err) {
+    while (str < end) {
         /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
-            (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
-            if (err) *err = *str;
-            return false;
+        if (*str == '\\') {
+            zpl_isize digits = 0;
+            ++str;
+            if (str < end && *str == 'u') {
+                while (digits < 4 && str + 1 < end && zpl_char_is_hex_digit(str[1])) { ++digits; ++str; }
+            }
+            if (str == end || (*str == 'u' && digits == 0) || (digits > 0 && digits < 4)) {
+                if (err) *err = '\\';
+                return false;
+            }
         }
 
         ++str;
@@ -104,7 +115,35 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
 
     return true;
 }
-#undef jx
+
+/* finds the end of node's name, which is its closing quote, or the first character past an unquoted one */
+zpl_internal char *zpl__json_name_end(zpl_adt_node *node) {
+    char *e = cast(char *)node->name;
+    if (node->name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES) {
+        zpl_str_advance_while(e, zpl__json_is_name_char(*e));
+        return e;
+    }
+    return cast(char *)zpl_str_control_skip(e, *(e - 1));
+}
+
+/* terminates names and strings within the text, and links nodes to their containers */
+zpl_internal void zpl__json_finish(zpl_adt_node *parent) {
+    for (zpl_isize i = 0; i < zpl_array_count(parent->nodes); ++i) {
+        zpl_adt_node *node = parent->nodes + i;
+        node->parent = parent;
+
+        if (node->name) {
+            *zpl__json_name_end(node) = '\0';
+        }
+        if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
+            zpl__json_finish(node);
+        }
+        else if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+            char *str = cast(char *)node->string;
+            *cast(char *)zpl_str_skip_literal(str, *(str - 1)) = '\0';
+        }
+    }
+}
 
 char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
@@ -126,7 +165,11 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code == ZPL_JSON_ERROR_NONE && elem.type == ZPL_ADT_TYPE_UNINITIALISED) {
+            ZPL_JSON_ASSERT("value expected");
+            *err_code = (*p == 0 || *p == '}') ? ZPL_JSON_ERROR_ARRAY_LEFT_OPEN : ZPL_JSON_ERROR_INVALID_VALUE;
+        }
+        if (*err_code != ZPL_JSON_ERROR_NONE) { zpl_adt_destroy_branch(&elem); return NULL; }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -145,7 +188,8 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         }
     }
 
-    *err_code = ZPL_JSON_ERROR_INTERNAL;
+    ZPL_JSON_ASSERT("end of array unfulfilled");
+    *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
     return NULL;
 }
 
@@ -154,14 +198,20 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         b = e = p + 1;
         obj->string = b;
         e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+        if (*e != c) {
+            ZPL_JSON_ASSERT("unterminated string");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        /* null-termination is deferred until the whole text is parsed */
+        p = e + 1;
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -203,13 +253,19 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
             return NULL;
         }
+        if (zpl__json_is_name_char(*p)) {
+            ZPL_JSON_ASSERT("unknown keyword");
+            *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
+            return NULL;
+        }
     } else if (zpl_char_is_digit(*p) || *p == '+' || *p == '-' || *p == '.') {
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
@@ -219,9 +275,10 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
+    zpl_b32 is_open = false;
 
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; is_open = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -250,12 +307,21 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code == ZPL_JSON_ERROR_NONE && (!node.name || node.type == ZPL_ADT_TYPE_UNINITIALISED)) {
+            ZPL_JSON_ASSERT("name or value expected");
+            *err_code = !node.name ? ZPL_JSON_ERROR_INVALID_NAME : ZPL_JSON_ERROR_INVALID_VALUE;
+        }
+        if (*err_code != ZPL_JSON_ERROR_NONE) { zpl_adt_destroy_branch(&node); return NULL; }
 
         zpl__json_append_node(obj->nodes, node);
 
         char *end_p = p; zpl_unused(end_p);
         p = zpl__json_trim(p, true);
+        if (*p == '\n') {
+            /* the delimiter might follow on another line */
+            char *next_p = zpl__json_trim(p, false);
+            if (*next_p == ',') p = next_p;
+        }
 
         /* this code analyses the keyvalue pair delimiter used in the packet. */
         if (zpl__json_is_delim_char(*p)) {
@@ -271,42 +337,50 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
             }
 #endif
             if (*p == 0) {
-                return p;
+                break;
             }
             ++p;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (is_open) {
+        ZPL_JSON_ASSERT("end of object unfulfilled");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            if (*p == '"') {
-                node->name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE;
-            } else if (*p == '\'') {
-                node->name_style = ZPL_ADT_NAME_STYLE_SINGLE_QUOTE;
-            }
-#endif
             char c = *p;
+            node->name_style = (c == '"') ? ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE : ZPL_ADT_NAME_STYLE_SINGLE_QUOTE;
             b = ++p;
-            e = cast(char *)zpl_str_control_skip(b, c);
             node->name = b;
+            p = zpl__json_name_end(node);
+            e = p + 1;
 
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            if (*p != c) {
+                ZPL_JSON_ASSERT("unterminated name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
         }
         else {
-            b = e = p;
-            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
+            node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
             node->name = b;
-            name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
+            p = e = zpl__json_name_end(node);
+        }
+
+        /* we defer null-termination as it would wipe our assign char as well. */
+        if (!zpl__json_validate_name(b, p, NULL)) {
+            ZPL_JSON_ASSERT("invalid name");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+            return NULL;
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -315,7 +389,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -328,20 +402,11 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else if (*p == '|')
                 node->assign_style = ZPL_ADT_ASSIGN_STYLE_LINE;
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
-#endif
-        }
-
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            node->name_style = name_style;
 #endif
         }
     }
-
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
-        ZPL_JSON_ASSERT("invalid name");
+    else if (!*p) {
+        ZPL_JSON_ASSERT("name expected");
         *err_code = ZPL_JSON_ERROR_INVALID_NAME;
         return NULL;
     }
@@ -352,26 +417,24 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    for (;;) {
         if (zpl_str_has_prefix(p, "//")) {
-            const char *e = zpl_str_skip(p, '\n');
-            p += (e-p);
+            p = cast(char *)zpl_str_skip(p, '\n');
+            if (*p) ++p;
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            char *e = p + 2;
+            while (*e && !(*e == '*' && *(e+1) == '/')) ++e;
+            if (!*e) return p; /* comment is left open */
+            p = e + 2; /* advance past end comment block */
         }
-        else if (*p == '\n' && catch_newline) {
+        else if ((*p == '\n' && catch_newline) || !zpl_char_is_space(*p)) {
             return p;
         }
-        else if (!zpl_char_is_space(*p)) {
-            return p;
+        else {
+            ++p;
         }
-    } while (*p++);
-    return NULL;
+    }
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 0ce4b7048d35053b248de6be8d6e31087a023182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 34/96] fix: moving a container within its own parent left its
 children linked to the place it came from

---
 code/source/adt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/adt.c b/code/source/adt.c
index 598879b..b7ca3dd 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -295,6 +295,7 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
         if (index <= old_index) old_index++;
         node = new_parent->nodes + old_index;
     }
+    if (old_parent) node->type = ZPL_ADT_TYPE_UNINITIALISED; /* its descendants belong to the new node now */
     *new_node = moved;
     zpl__adt_relink(new_parent, index);
     if (old_parent) {
-- 
2.43.0


From af00d835bda67924a3150663f7ab37fc7737b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 35/96] fix: infinite and undefined reals were printed as words
 no parser takes, and each printing of a fraction ending in zero appended
 another zero

---
 code/source/adt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index b7ca3dd..53505b8 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -566,10 +566,15 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 zpl__adt_fprintf(file, ".");
                 for (zpl_isize i = 0; i < node->base2_offset; ++i)
                     zpl__adt_fprintf(file, "0");
-                zpl__adt_fprintf(file, "%lld", (long long)node->base2);
+                if (node->base2 || !node->base2_offset)
+                    zpl__adt_fprintf(file, "%lld", (long long)node->base2);
                 if (node->props == ZPL_ADT_PROPS_IS_EXP)
                     zpl__adt_fprintf(file, "e%lld", (long long)node->exp);
 #endif
+            } else if (node->real != node->real) {
+                zpl__adt_fprintf(file, "NaN");
+            } else if (node->real > ZPL_F64_MAX || node->real < -ZPL_F64_MAX) {
+                zpl__adt_fprintf(file, node->real < 0 ? "-Infinity" : "Infinity");
             } else {
                 zpl__adt_fprintf(file, "%f", node->real);
             }
-- 
2.43.0


From ac71a916f82855b561ce7a4e31bdd7a12c84360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 36/96] fix: an object member with another delimiter than a
 comma, and any object in a document without outer braces, was written with a
 line break in front of the delimiter, which the parser rejects; and a braced
 document beginning with a line break was written without its braces

---
 code/source/parsers/json.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 57b2af8..452942d 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -35,10 +35,10 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     ZPL_ASSERT(root);
     ZPL_ASSERT(text);
     zpl_zero_item(root);
-    text = zpl__json_trim(text, true);
+    text = zpl__json_trim(text, false);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (!zpl_strchr("{[", *text)) {
+    if (!*text || !zpl_strchr("{[", *text)) {
         root->cfg_mode = true;
     }
 #endif
@@ -437,7 +437,7 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     }
 }
 
-zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
+zpl_internal zpl_b8 zpl__json_write_branch(zpl_file *f, zpl_adt_node *o, zpl_isize indent, zpl_b32 is_root) {
     if (!o)
         return true;
 
@@ -465,7 +465,7 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
 
     zpl___ind(indent);
 
-    if (indent > 0) {
+    if (indent > 0 || !is_root) {
         zpl__json_fprintf(f, "%c", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']');
     } else {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -477,6 +477,10 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
     return true;
 }
 
+zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
+    return zpl__json_write_branch(f, o, indent, true);
+}
+
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last) {
     zpl_adt_node *node = o;
     if (indent != ZPL_JSON_INDENT_STYLE_COMPACT) indent += 4;
@@ -549,7 +553,7 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
         } break;
 
         case ZPL_ADT_TYPE_OBJECT: {
-            if (!zpl_json_write(f, node, indent)) return false;
+            if (!zpl__json_write_branch(f, node, indent, false)) return false;
         } break;
     }
 
-- 
2.43.0


From 24c59d5490eb7957164232c998534dc0da10146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 37/96] fix: CSV tables whose later rows are longer, or end in
 an empty field, came out ragged instead of rejected or complete; an empty
 quoted field unescaped the text behind it; number-like texts lost characters;
 numeric headers crashed; tab delimiters were skipped as white space; text
 behind a closing quote became another cell; a table of only a header was not
 written

---
 code/source/parsers/csv.c | 123 ++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 58 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..ceaeb21 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,32 +10,37 @@
 
 ZPL_BEGIN_C_DECLS
 
+/* skips white space, but never the delimiter itself */
+zpl_internal char *zpl__csv_trim(char *p, zpl_b32 catch_newline, char delim) {
+    while (*p != delim && zpl_char_is_space(*p) && !(*p == '\n' && catch_newline)) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) {
+        return ZPL_CSV_ERROR_INTERNAL;
+    }
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, rowc = 0;
 
     do {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        /* skip blank lines in between rows, a row might end with an empty field however */
+        p = zpl__csv_trim(p, colc > 0, delim);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
         row_item.name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-#endif
 
         /* handle string literals */
         if (*p == '"') {
             p = b = e = p+1;
             row_item.string = b;
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
             row_item.name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE;
-#endif
             do {
                 e = cast(char *)zpl_str_skip(e, '"');
                 if (*e && *(e+1) == '"') {
@@ -49,79 +54,75 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, true, delim);
             d = *p;
 
+            if (d != delim && d != '\n' && d != 0) {
+                ZPL_CSV_ASSERT("quoted string is followed by another value");
+                err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
+                return err;
+            }
+
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
-                    if (*ep == '"' && *(ep+1) == '"') {
-                        zpl_memmove(ep, ep+1, zpl_strlen(ep));
-                    }
-                    ep++;
-                } while (*ep);
+                for (; *b; ++b) {
+                    if (*b == '"' && *(b+1) == '"') ++b;
+                    *ep++ = *b;
+                }
+                *ep = 0;
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
-
-            /* check if number and process if so */
-            zpl_b32 skip_number = false;
-            char *num_p = b;
-            do {
-                if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
-                    skip_number = true;
-                    break;
-                }
-            } while (*num_p++);
+            p = e;
+            d = *p;
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            *e = 0;
 
-            if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+            /* check if number and process if so, header fields are names */
+            if (!has_header || rowc > 0) {
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (rowc > 0) {
+                ZPL_CSV_ASSERT("mismatched rows");
+                err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
+                return err;
+            }
+            if (!zpl_adt_append_arr(root, NULL)) {
+                return ZPL_CSV_ERROR_INTERNAL;
+            }
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
-
-        if (d == delim) {
-            colc++;
-            p++;
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) {
+            return ZPL_CSV_ERROR_INTERNAL;
         }
-        else if (d == '\n' || d == 0) {
+        colc++;
+
+        if (d != delim) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
-            else if (total_colc != colc) {
+            if (colc != zpl_array_count(root->nodes)) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
                 return err;
             }
+            rowc++;
             colc = 0;
-            if (d != 0) p++;
         }
-    } while(*p);
+        if (d != 0) p++;
+    } while(*p || colc > 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
@@ -129,14 +130,19 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         return err;
     }
 
-    /* consider first row as a header. */
-    if (has_header) {
-        for (zpl_isize i = 0; i < zpl_array_count(root->nodes); i++) {
-            zpl_csv_object *col = root->nodes + i;
+    for (zpl_isize i = 0; i < zpl_array_count(root->nodes); i++) {
+        zpl_csv_object *col = root->nodes + i;
+
+        /* consider first row as a header. */
+        if (has_header) {
             zpl_csv_object *hdr = col->nodes;
             col->name = hdr->string;
             zpl_array_remove_at(col->nodes, 0);
         }
+
+        for (zpl_isize j = 0; j < zpl_array_count(col->nodes); j++) {
+            col->nodes[j].parent = col;
+        }
     }
 
     return err;
@@ -187,8 +193,6 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
     if (cols == 0) return;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
-
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
@@ -203,7 +207,9 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            if (r < zpl_array_count(obj->nodes[i].nodes)) {
+                zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            }
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
@@ -214,7 +220,8 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_csv_write_delimiter(&tmp, obj, delimiter);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 256175bb075fcdcc171b782715953e70c25d5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 38/96] fix: decoding URI parameters read past a text ending in
 a percent sign and overran a 64 KiB buffer; text behind white space became a
 parameter; the origin was printed as a format string; a lone origin was
 written with a question mark and an origin that is not first left a trailing
 separator; running out of memory crashed

---
 code/source/parsers/uri.c | 75 ++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..829b872 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,40 +3,33 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
-    char *tp = text;
-    
-    char ch = -1;
+    char *p = text, *tp = text;
+
+    // NOTE(zaklaus): decoded text is never longer than the original
     while (*tp) {
-        ch = *tp++;
-        
-        if (ch != '%') {
-            if (ch == '+') {
-                *(p++) = ' ';
-            } else {
-                *(p++) = ch;
-            }
-        } else {
-            char hex[3] = {0};
-            hex[0] = tp[0];
-            hex[1] = tp[1];
-            char b = (char)zpl_str_to_i64(hex, NULL, 16);
-            *(p++) = b;
+        char ch = *tp++;
+
+        if (ch == '+') {
+            ch = ' ';
+        } else if (ch == '%' && zpl_char_is_hex_digit(tp[0]) && zpl_char_is_hex_digit(tp[1])) {
+            ch = cast(char)((zpl_hex_digit_to_int(tp[0]) << 4) | zpl_hex_digit_to_int(tp[1]));
             tp += 2;
         }
+
+        *(p++) = ch;
     }
-    
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin))
+        err_code = ZPL_URI_ERROR_INTERNAL;
     return err_code;
 }
 
@@ -47,7 +40,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -61,9 +55,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b)) {
+            return ZPL_URI_ERROR_INTERNAL;
+        }
         
-        if (!c) {
+        if (c != '?') {
             // NOTE(zaklaus): URI has no query params, bail
             return err_code;
         }
@@ -94,14 +90,17 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             zpl_adt_str_to_number_strict(obj);
-        } else {
+        } else if (*field_name) {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) return ZPL_URI_ERROR_INTERNAL;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
         
-        if (!c) {
+        // NOTE(zaklaus): URI ends with the text or at the first white space
+        if (!c || zpl_char_is_space(c)) {
             break;
         }
         
@@ -147,19 +146,24 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     // NOTE(zaklaus): write URI origin if available
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
+        if (origin && (origin->type != ZPL_ADT_TYPE_STRING || !origin->string)) {
+            origin = NULL;
+        }
         if (origin) {
-            zpl_fprintf(f, origin->string);
+            zpl_fprintf(f, "%s", origin->string);
         }
     }
     
 	// NOTE(zaklaus): write params
-	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
+    zpl_b32 has_params = false;
     
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
+        zpl_fprintf(f, "%s", has_params ? "&" : "?");
+        has_params = true;
+        
         zpl__uri_print_str(f, n->name);
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
@@ -172,10 +176,6 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
                 zpl_adt_print_number(f, n);
            } 
         }
-        
-        if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
-        }
     }
 }
 
@@ -185,7 +185,8 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_uri_write(&tmp, obj);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 717c831a0f01cf914fe67c450bc8bdca0301f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 39/96] fix: zpl_reverse wrote beyond the array, zpl_shuffle
 used negative indices, and radix sort of u8 left the result in the temporary
 buffer

---
 code/source/core/sort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..cf4e347 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes leaves the result in temp */                                              \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(zpl_##Type));                          \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
@@ -157,7 +159,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = zpl_random_range_isize(&random, 0, i - 1);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
@@ -165,7 +167,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From b946b324dcb8a09c799fadc24e60fa198ba1d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 40/96] fix: the unique generator repeated values, integer
 ranges of the full width divided by zero, real ranges overflowed or left
 their bounds, and seeding could hang when the clock jumped

---
 code/source/core/random.c | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..72b9e58 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -10,19 +10,8 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 #endif
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
-    zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
-    return accum;
+    // NOTE: A single sample, as time that has moved past a limit never comes back to it
+    return cast(zpl_u32)zpl_time_rel();
 }
 
 // NOTE: Partly from http://preshing.com/20121224/how-to-generate-a-sequence-of-unique-random-integers/
@@ -33,7 +22,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
@@ -121,11 +110,12 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    // NOTE: Unsigned, as the full range has 2^64 values (diff is 0 then)
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1;
+    if (diff) u %= diff;
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -135,11 +125,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1;
+    if (diff) u %= diff;
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -158,10 +148,11 @@ ZPL_ALWAYS_INLINE zpl_f64 zpl__random_copy_sign64(zpl_f64 x, zpl_f64 y) {
 
 zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_inc) {
     zpl_f64 f = cast(zpl_f64)zpl_random_gen_u64(r) / cast(zpl_f64)ZPL_U64_MAX;
-    zpl_f64 diff = higher_inc-lower_inc;
     
-    f *= diff;
-    f += lower_inc;
+    // NOTE: Weighs the bounds, as their difference could overflow
+    f = lower_inc*(1.0-f) + higher_inc*f;
+    if (f < lower_inc) f = lower_inc;
+    if (f > higher_inc) f = higher_inc;
     return f;
 }
 
-- 
2.43.0


From 3e247ce36c2350c4b002cc799fadd81997a3429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 41/96] fix: decoding Base64 read past inputs that were not
 terminated or not whole groups, indexed its table with padding characters,
 and leaked the result of refused texts

---
 code/source/hashing.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..48a0ae6 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,15 +213,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -293,18 +292,24 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    // NOTE: Only whole groups of four characters, padded at the very end, can be decoded
+    if (len % 4 != 0)
+        return NULL;
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL;
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    ZPL_ASSERT_NOT_NULL(ret);
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 18b2a554e906b1f57cfc1a941e222829ed4dd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 42/96] fix: options without a long name crashed when set,
 positionals dangled after more options were added, repeated texts leaked, the
 help read past the options, and a stray value's error named nothing

---
 code/source/opts.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..cf6c11f 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,13 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    zpl_opts_entry *entries = opts->entries;
     zpl_array_append(opts->entries, e);
+
+    // NOTE: Entries might have been moved, positionals have to follow them
+    for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+        opts->positioned[i] = opts->entries + (opts->positioned[i] - entries);
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
@@ -93,6 +99,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
@@ -106,7 +113,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
@@ -124,7 +131,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
@@ -208,7 +215,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
-- 
2.43.0


From d418afeae43c1eecbd877485a1021d46b535431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 43/96] fix: regex matching took failed alternatives and
 operands for matches, never tried zero repetitions nor the end of the text,
 stopped repeating at the end of a pattern, and read past the text

---
 code/source/regex.c | 112 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..8f51b35 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -66,6 +66,10 @@ static zpl_re_ctx zpl_re__ctx_no_match(zpl_isize op) {
     return c;
 }
 
+static zpl_b32 zpl_re__ctx_is_match(zpl_re_ctx c, zpl_isize str_len) {
+    return c.offset >= 0 && c.offset <= str_len;
+}
+
 static zpl_re_ctx zpl_re__ctx_internal_failure(zpl_isize op) {
     zpl_re_ctx c;
     c.op = op;
@@ -111,36 +115,32 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
+static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize min_count, zpl_b32 is_greedy)
 {
-    zpl_re_ctx c, best_c, next_c;
-
-    c.op = op;
-    c.offset = offset;
-
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
-
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
-
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-
-            best_c = next_c;
-            if (!is_greedy) break;
+    zpl_re_ctx c, next_c;
+    zpl_isize count, next_op = op, best_offset = ZPL_RE__NO_MATCH;
+
+    for (count = 0;; count++) {
+        // NOTE: The operand's context names the operation after it whether or not it matches
+        c = zpl_re__exec_single(re, op, str, str_len, offset, 0, 0);
+        next_op = c.op;
+
+        if (count >= min_count) {
+            next_c = zpl_re__exec(re, next_op, str, str_len, offset, 0, 0);
+            if (zpl_re__ctx_is_match(next_c, str_len)) {
+                best_offset = offset;
+                if (!is_greedy) break;
+            }
         }
 
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
-
+        if (!zpl_re__ctx_is_match(c, str_len)) break;
+        offset = c.offset;
     }
 
-    return best_c;
+    if (best_offset < 0)
+        return zpl_re__ctx_no_match(next_op);
+
+    return zpl_re__exec(re, next_op, str, str_len, best_offset, captures, max_capture_count);
 }
 
 static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
@@ -174,9 +174,9 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
+            skip = (zpl_u8)re->buf[op++];
             ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
+            if (zpl_re__ctx_is_match(ctx, str_len)) {
                 offset = ctx.offset;
                 op = ctx.op;
             } else {
@@ -187,7 +187,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
+            skip = (zpl_u8)re->buf[op++];
             op += skip;
         } break;
 
@@ -201,17 +201,19 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_OF: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = (zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
+
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op+i];
                 if (!cmatch) {
                     i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
+                    if (zpl_re__match_escape(cin, (zpl_u8)re->buf[op+i] << 8))
                         break;
                 } else if (cin == cmatch) {
                     break;
@@ -227,17 +229,19 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_BUT: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = (zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
+
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op + i];
                 if (!cmatch) {
                     i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
+                    if (zpl_re__match_escape(cin, (zpl_u8)re->buf[op+i] << 8))
                         return zpl_re__ctx_no_match(op + buffer_len);
                 } else if (cin == cmatch) {
                     return zpl_re__ctx_no_match(op + buffer_len);
@@ -249,10 +253,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
+            match_len = (zpl_u8)re->buf[op++];
 
             if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
+                zpl_memcompare(str+offset, re->buf + op, match_len) != 0)
                 return zpl_re__ctx_no_match(op + match_len);
 
             op += match_len;
@@ -261,7 +265,12 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_META_MATCH: {
             char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
+            char cmatch;
+
+            if (offset >= str_len)
+                return zpl_re__ctx_no_match(cin ? op : op + 1);
+
+            cmatch = str[offset++];
 
             if (!cin) {
                 if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
@@ -273,35 +282,25 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
@@ -309,10 +308,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_ZERO_OR_ONE: {
             ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__ctx_is_match(ctx, str_len)) {
                 zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
 
-                if (possible_ctx.offset <= str_len) {
+                if (zpl_re__ctx_is_match(possible_ctx, str_len)) {
                     op = possible_ctx.op;
                     offset = possible_ctx.offset;
                     break;
@@ -322,7 +321,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
             next_op = ctx.op;
             ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__ctx_is_match(ctx, str_len)) {
                 op = ctx.op;
                 offset = ctx.offset;
                 break;
@@ -349,7 +348,7 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
     while (c.op < re->buf_len) {
         c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
 
-        if (c.offset > str_len || c.offset == -1)
+        if (!zpl_re__ctx_is_match(c, str_len))
             break;
     }
 
@@ -720,7 +719,7 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
             if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
         } else {
             zpl_isize i;
-            for (i = 0; i < len; i++) {
+            for (i = 0; i <= len; i++) {
                 zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
                 if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
                 if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
@@ -728,6 +727,7 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
         }
         return 0;
     }
+    if (offset) *offset = 0;
     return 1;
 }
 
-- 
2.43.0


From f0fdcae53419c8437de57f825507d10d7c8cecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 44/96] fix: compiling expressions hung on ], took \d and other
 classes for hex digits, lost alternatives and lazy quantifiers, accepted
 unclosed groups, overran its buffer, and zpl_re_destroy was missing

---
 code/source/regex.c | 96 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 20 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 8f51b35..4ab71b9 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -373,8 +373,10 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
+        if (v > 255) {
+            va_end(va);
             return ZPL_RE_ERROR_TOO_LONG;
+        }
         re->buf[re->buf_len++] = (char)v;
     }
     va_end(va);
@@ -441,7 +443,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
@@ -467,9 +469,17 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
-                buffer[buffer_len++] = zpl_re__hex((pattern+offset));
+            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
+                zpl_u8 hex_value = zpl_re__hex((pattern+offset));
+                buffer[buffer_len++] = (char)hex_value;
                 offset++;
+
+                // NOTE: Zero introduces a character class, whose first one is zero itself
+                if (!hex_value) {
+                    if (buffer_len >= buffer_cap)
+                        return ZPL_RE_ERROR_TOO_LONG;
+                    buffer[buffer_len++] = 0;
+                }
             }
             else if (offset < len) {
                 zpl_i32 code = zpl_re__encode_escape(pattern[offset]);
@@ -489,6 +499,12 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         }
         else {
             buffer[buffer_len++] = (unsigned char)pattern[offset];
+
+            if (!pattern[offset]) {
+                if (buffer_len >= buffer_cap)
+                    return ZPL_RE_ERROR_TOO_LONG;
+                buffer[buffer_len++] = 0;
+            }
         }
 
         offset++;
@@ -505,7 +521,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     zpl_isize move_size;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        ((zpl_u8)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
@@ -516,7 +532,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
         return ZPL_RE_ERROR_NONE;
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
@@ -527,6 +543,16 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     return ZPL_RE_ERROR_NONE;
 }
 
+static zpl_regex_error zpl_re__close_branch(zpl_re *re, zpl_isize branch_op) {
+    if (branch_op != -1) {
+        zpl_isize skip = re->buf_len - (branch_op+2);
+        if (skip > 255)
+            return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[branch_op+1] = (char)skip;
+    }
+    return ZPL_RE_ERROR_NONE;
+}
+
 static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize level, zpl_isize *new_offset) {
     zpl_regex_error err = ZPL_RE_ERROR_NONE;
     zpl_isize last_buf_len = re->buf_len;
@@ -536,11 +562,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
     while (offset < len) {
         switch (pattern[offset++]) {
             case '^': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
             } break;
 
             case '$': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
             } break;
@@ -552,21 +580,19 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
-
-                if ((offset > len) || (pattern[offset-1] != ')'))
-                    return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+                if (err) return err;
 
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_END_CAPTURE, (zpl_i32)capture);
                 if (err) return err;
             } break;
 
             case ')': {
-                if (branch_op != -1)
-                    re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
-
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
 
+                err = zpl_re__close_branch(re, branch_op);
+                if (err) return err;
+
                 if (new_offset) *new_offset = offset;
                 return ZPL_RE_ERROR_NONE;
             } break;
@@ -574,8 +600,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
-                    return err;
+                if (err) return err;
+            } break;
+
+            case ']': {
+                return ZPL_RE_ERROR_MISMATCHED_BLOCKS;
             } break;
 
             /* NOTE(bill): Branching magic! */
@@ -584,6 +613,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
                     zpl_isize size = re->buf_len - branch_begin;
+                    if (size + 2 > 255)
+                        return ZPL_RE_ERROR_TOO_LONG;
+
+                    // NOTE: The end of the previous branch continues at the end of this one
+                    err = zpl_re__close_branch(re, branch_op);
+                    if (err) return err;
+
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
@@ -591,6 +627,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
                     re->buf[branch_begin+1] = (size+2) & 0xff;
                     branch_op = re->buf_len-2;
+                    last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -614,12 +651,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = (quantifier == ZPL_RE_OP_ZERO_OR_MORE) ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
                 err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '?': {
@@ -632,14 +670,18 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 err = zpl_re__compile_quantifier(re, last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    if (!hex_value)
+                        err = zpl_re__emit_ops(re, 3, ZPL_RE_OP_META_MATCH, 0, 0);
+                    else
+                        err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
@@ -673,6 +715,12 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    if (level > 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
+    err = zpl_re__close_branch(re, branch_op);
+    if (err) return err;
+
     if (new_offset) *new_offset = offset;
     return ZPL_RE_ERROR_NONE;
 }
@@ -682,7 +730,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
@@ -703,12 +751,20 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    if (err)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
-- 
2.43.0


From 6b053c84ccac402a75bdc44559f4be243a930a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 45/96] fix: zpl_re_match_all never ended on empty matches and
 returned uninitialised captures

---
 code/source/regex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 4ab71b9..1b55a7e 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -800,13 +800,17 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
 
     while (p < end)
     {
+        // NOTE: Captures which don't take part in this match are empty
+        zpl_memset(cps, 0, zpl_size_of(zpl_re_capture) * max_capture_count);
+
         zpl_b32 ok = zpl_re_match(re, p, end - p, cps, max_capture_count, &offset);
         if (!ok) {
             zpl_buffer_free(cps);
             return false;
         }
 
-        p += offset;
+        // NOTE: An empty match has to make progress too
+        p += (offset > 0) ? offset : 1;
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
             zpl_array_append(*out_captures, cps[i]);
-- 
2.43.0


From 40fb1ff1188a1e3653566330aaf4e55f047d68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 46/96] fix: floor of negative and ceiling of positive whole
 numbers were off by one, large values overflowed, rounding was wrong next to
 halves, the remainder operations had the wrong sign or added the divisor
 wrongly, and two constants had the wrong values

---
 code/header/math.h |  4 ++--
 code/source/math.c | 27 +++++++++++++++------------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/code/header/math.h b/code/header/math.h
index a75301a..4580b3b 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -138,8 +138,8 @@ typedef short zpl_half;
 
 #define ZPL_TAU          6.28318530717958647692528676655900576f
 #define ZPL_PI           3.14159265358979323846264338327950288f
-#define ZPL_ONE_OVER_TAU 0.636619772367581343075535053490057448f
-#define ZPL_ONE_OVER_PI  0.159154943091895335768883763372514362f
+#define ZPL_ONE_OVER_TAU 0.159154943091895335768883763372514362f
+#define ZPL_ONE_OVER_PI  0.318309886183790671537767526745028724f
 
 #define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
 #define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..fa65896 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -60,9 +60,11 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+/* NOTE: reals of at least 2^52 (2^23) are whole numbers, which need not fit an integer */
+zpl_internal zpl_f64 zpl__trunc64(zpl_f64 x)  { return zpl_is_between(x, -4503599627370496.0, 4503599627370496.0) ? cast(zpl_f64)(cast(zpl_i64) x) : x; }
+zpl_f64 zpl_floor64(zpl_f64 x)                { zpl_f64 t = zpl__trunc64(x); return t > x ? t - 1.0 : t; }
+zpl_f64 zpl_ceil64(zpl_f64 x)                 { zpl_f64 t = zpl__trunc64(x); return t < x ? t + 1.0 : t; }
+zpl_f64 zpl_round64(zpl_f64 x)                { zpl_f64 t = zpl__trunc64(x); return (x - t >= 0.5) ? t + 1.0 : (x - t <= -0.5) ? t - 1.0 : t; }
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -71,7 +73,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
@@ -255,9 +257,10 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+zpl_internal zpl_f32 zpl__trunc(zpl_f32 x) { return zpl_is_between(x, -8388608.0f, 8388608.0f) ? cast(zpl_f32)(cast(zpl_i32) x) : x; }
+zpl_f32 zpl_round(zpl_f32 x) { zpl_f32 t = zpl__trunc(x); return (x - t >= 0.5f) ? t + 1.0f : (x - t <= -0.5f) ? t - 1.0f : t; }
+zpl_f32 zpl_floor(zpl_f32 x) { zpl_f32 t = zpl__trunc(x); return t > x ? t - 1.0f : t; }
+zpl_f32 zpl_ceil(zpl_f32 x)  { zpl_f32 t = zpl__trunc(x); return t < x ? t + 1.0f : t; }
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
@@ -271,7 +274,7 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     if (e == 0) {
         if (m == 0) {
             /* Plus or minus zero */
-            result.i = (unsigned int)(s << 31);
+            result.i = (unsigned int)s << 31;
             return result.f;
         } else {
             /* Denormalized number */
@@ -286,11 +289,11 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     } else if (e == 31) {
         if (m == 0) {
             /* Positive or negative infinity */
-            result.i = (unsigned int)((s << 31) | 0x7f800000);
+            result.i = (((unsigned int)s << 31) | 0x7f800000);
             return result.f;
         } else {
             /* Nan */
-            result.i = (unsigned int)((s << 31) | 0x7f800000 | (m << 13));
+            result.i = (((unsigned int)s << 31) | 0x7f800000 | (m << 13));
             return result.f;
         }
     }
@@ -298,7 +301,7 @@ zpl_f32 zpl_half_to_float(zpl_half value) {
     e = e + (127 - 15);
     m = m << 13;
 
-    result.i = (unsigned int)((s << 31) | (e << 23) | m);
+    result.i = (((unsigned int)s << 31) | (e << 23) | m);
     return result.f;
 }
 
-- 
2.43.0


From f27a0edd6c71359af16864d6b9d9c20c5474a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 47/96] fix: 2x2 and 3x3 matrices times vectors and the 3x3
 inverse were transposed, copying a 2x2 matrix overran it, refraction had a
 wrong formula and gave not-a-number for total reflection, the DX perspective
 depth, quaternion axis, roll and pitch were wrong, spherical interpolation of
 equal ends gave not-a-number and its approximation corrected the wrong way,
 frustum planes mixed matrix rows with columns, and boxes around the view
 volume were culled

---
 code/header/math.h |   2 +
 code/source/math.c | 153 +++++++++++++++++++--------------------------
 2 files changed, 65 insertions(+), 90 deletions(-)

diff --git a/code/header/math.h b/code/header/math.h
index 4580b3b..d75bc99 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -294,6 +294,7 @@ ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
 ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
 ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
 
+ZPL_DEF void    zpl_mat2_copy(zpl_mat2 *out, zpl_mat2 *m);
 ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
 ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
 ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
@@ -313,6 +314,7 @@ ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
 ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
 ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
 
+ZPL_DEF void    zpl_mat3_copy(zpl_mat3 *out, zpl_mat3 *m);
 ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
 ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
 ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
diff --git a/code/source/math.c b/code/source/math.c
index fa65896..c378fee 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -557,10 +557,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec2f_zero( );
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -569,10 +572,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec3f_zero( );
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
@@ -591,7 +597,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
@@ -631,8 +637,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -714,9 +720,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
@@ -735,13 +741,13 @@ void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
@@ -1054,7 +1060,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = - z_far * z_near / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
@@ -1229,23 +1235,23 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
     zpl_f32 mag   = zpl_quat_mag(q);
     zpl_f32 c     = q.w * (1.0f / mag);
-    zpl_f32 angle = 2.0f * zpl_arccos(c);
+    zpl_f32 angle = 2.0f * zpl_arccos(zpl_clamp(c, -1.0f, 1.0f));
     return angle;
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
-zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
+zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(zpl_clamp(-2.0f * (q.x * q.z - q.w * q.y), -1.0f, 1.0f)); }
 
 void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v) {
     /* zpl_vec3 t = 2.0f * cross(q.xyz, v);
@@ -1360,16 +1366,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1381,9 +1387,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1394,10 +1400,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1408,10 +1414,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1422,10 +1428,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1436,10 +1442,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1465,53 +1471,19 @@ zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point) {
 }
 
 zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 aabb) {
-    zpl_vec3 box, center;
-    zpl_vec3 v, b;
-    zpl_vec3_sub(&box, aabb.max, aabb.min);
-    zpl_vec3_diveq(&box, 2.0f);
-    zpl_vec3_add(&center, aabb.min, box);
-
-    b = zpl_vec3f(-box.x, -box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, -box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, +box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, +box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, +box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, +box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, -box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, -box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
+    /* NOTE: outside when all corners lie behind one of the planes, i.e. when the foremost one does */
+    zpl_plane planes[6];
+    zpl_isize i;
+    zpl_memcopy(planes, frustum, sizeof(planes));
+
+    for (i = 0; i < 6; i++) {
+        zpl_vec3 v = zpl_vec3f(planes[i].a > 0.0f ? aabb.max.x : aabb.min.x,
+                               planes[i].b > 0.0f ? aabb.max.y : aabb.min.y,
+                               planes[i].c > 0.0f ? aabb.max.z : aabb.min.z);
+        if (zpl_plane_distance(&planes[i], v) <= 0.0f) return 0;
+    }
 
-    return 0;
+    return 1;
 }
 
 zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t) { return a * (1.0f - t) + b * t; }
@@ -1610,9 +1582,10 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
         cos_theta = -cos_theta;
     }
 
-    if (cos_theta > 1.0f) {
+    if (cos_theta >= 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
@@ -1631,7 +1604,7 @@ void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
      *             Even works okay for nearly anti-parallel versors!!!
      */
     /* NOTE: Extra interations cannot be used as they require angle^4 which is not worth it to approximate */
-    zpl_f32 tp = t + (1.0f - zpl_quat_dot(a, b)) / 3.0f * t * (-2.0f * t * t + 3.0f * t - 1.0f);
+    zpl_f32 tp = t + (1.0f - zpl_quat_dot(a, b)) / 3.0f * t * (2.0f * t * t - 3.0f * t + 1.0f);
     zpl_quat_nlerp(d, a, b, tp);
 }
 
-- 
2.43.0


From c0d0423cf335e1eda546680e00b86c8998d71814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 48/96] fix: contracting a box compared the distances of its
 corners from the origin, so boxes on the negative side vanished and crossed
 ones did not

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index c378fee..a083d38 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1794,7 +1794,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From 1b46cc9560a583c574f855342968708da23966b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 49/96] fix: spin_lock and try_acquire_lock compared with 1 and
 stored 0, so they never took the lock and two threads could hold it

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 63ad88f2c9b0aa58c106001d764eeeaa6127e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 50/96] fix: the x86 atomics did not stop the compiler from
 moving other memory accesses across them, so in a single-file C++ build a
 store made under a lock came after the unlock (g++ -O2)

---
 code/source/threading/atomic.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..bfd60f9 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -138,8 +138,11 @@ ZPL_BEGIN_C_DECLS
 
 #elif defined(ZPL_CPU_X86)
 
-    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a)      { return a->value;  }
-    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) { a->value = value; }
+    // NOTE: Keeps the compiler from moving other memory accesses across an atomic operation
+#    define zpl__atomic_barrier() __asm__ __volatile__("" : : : "memory")
+
+    zpl_i32 zpl_atomic32_load (zpl_atomic32 const *a)      { zpl_i32 value = a->value; zpl__atomic_barrier(); return value;  }
+    void zpl_atomic32_store(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) value) { zpl__atomic_barrier(); a->value = value; }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
         zpl_atomicarg(zpl_i32) original;
@@ -147,6 +150,7 @@ ZPL_BEGIN_C_DECLS
             "lock; cmpxchgl %2, %1"
             : "=a"(original), "+m"(a->value)
             : "q"(desired), "0"(expected)
+            : "memory"
             );
         return original;
     }
@@ -158,6 +162,7 @@ ZPL_BEGIN_C_DECLS
             "xchgl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(desired)
+            : "memory"
             );
         return original;
     }
@@ -168,6 +173,7 @@ ZPL_BEGIN_C_DECLS
             "lock; xaddl %0, %1"
             : "=r"(original), "+m"(a->value)
             : "0"(operand)
+            : "memory"
             );
         return original;
     }
@@ -183,6 +189,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(tmp)
             : "r"(operand)
+            : "memory"
             );
         return original;
     }
@@ -198,6 +205,7 @@ ZPL_BEGIN_C_DECLS
             "       jne     1b"
             : "=&a"(original), "+m"(a->value), "=&r"(temp)
             : "r"(operand)
+            : "memory"
             );
         return original;
     }
@@ -205,7 +213,9 @@ ZPL_BEGIN_C_DECLS
 
     zpl_i64 zpl_atomic64_load(zpl_atomic64 const *a) {
 #        if defined(ZPL_ARCH_64_BIT)
-            return a->value;
+            zpl_i64 value = a->value;
+            zpl__atomic_barrier();
+            return value;
 #        else
             zpl_atomicarg(zpl_i64) original;
             __asm__(
@@ -214,6 +224,7 @@ ZPL_BEGIN_C_DECLS
                 "lock; cmpxchg8b %1"
                 : "=&A"(original)
                 : "m"(a->value)
+                : "memory"
                 );
             return original;
 #        endif
@@ -221,6 +232,7 @@ ZPL_BEGIN_C_DECLS
 
     void zpl_atomic64_store(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) value) {
 #        if defined(ZPL_ARCH_64_BIT)
+            zpl__atomic_barrier();
             a->value = value;
 #        else
             zpl_atomicarg(zpl_i64) expected = a->value;
@@ -229,6 +241,7 @@ ZPL_BEGIN_C_DECLS
                 "      jne 1b"
                 : "=m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))value), "c"((zpl_atomicarg(zpl_i32))(value >> 32)), "A"(expected)
+                : "memory"
                 );
 #        endif
     }
@@ -240,6 +253,7 @@ ZPL_BEGIN_C_DECLS
                 "lock; cmpxchgq %2, %1"
                 : "=a"(original), "+m"(a->value)
                 : "q"(desired), "0"(expected)
+                : "memory"
                 );
             return original;
 #        else
@@ -248,6 +262,7 @@ ZPL_BEGIN_C_DECLS
                 "lock; cmpxchg8b %1"
                 : "=A"(original), "+m"(a->value)
                 : "b"((zpl_atomicarg(zpl_i32))desired), "c"((zpl_atomicarg(zpl_i32))(desired >> 32)), "0"(expected)
+                : "memory"
                 );
             return original;
 #        endif
@@ -260,6 +275,7 @@ ZPL_BEGIN_C_DECLS
                 "xchgq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(desired)
+                : "memory"
                 );
             return original;
 #        else
@@ -280,6 +296,7 @@ ZPL_BEGIN_C_DECLS
                 "lock; xaddq %0, %1"
                 : "=r"(original), "+m"(a->value)
                 : "0"(operand)
+                : "memory"
                 );
             return original;
 #        else
@@ -303,6 +320,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(tmp)
                 : "r"(operand)
+                : "memory"
                 );
             return original;
 #        else
@@ -326,6 +344,7 @@ ZPL_BEGIN_C_DECLS
                 "       jne     1b"
                 : "=&a"(original), "+m"(a->value), "=&r"(temp)
                 : "r"(operand)
+                : "memory"
                 );
             return original;
 #        else
-- 
2.43.0


From 39d077747fc1f6ad85a3c4373b48e27569938cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 51/96] fix: on POSIX mutex_init, mutex_destroy and
 mutex_try_lock returned the error code as their zpl_b32, so try_lock said
 false when it took the lock and true when another thread held it

---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From 2d862c3fea32a6d961952e1e86d9201ddc5311ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 52/96] fix: thread_start returned the (true) error code when
 the thread could not be created and left the handle undefined, so the
 following join or destroy used a thread that never existed

---
 code/source/threading/thread.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..e69d2a7 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -79,11 +79,12 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
-        zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        int res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From 74d1fe923789c4775964e092adc758935b848800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 53/96] fix: a worker that had just been handed a job overwrote
 the request to terminate with BUSY, so jobs_free waited for it forever

---
 code/source/jobs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..f2f04e1 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,10 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                // NOTE: The system may have asked us to terminate in the meantime
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY) {
+                    break;
+                }
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From abb1d4a09876ff5d8cc2533c7f07ab393673b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 54/96] fix: socket_get_address and socket_receive_from passed
 the size of the address as a pointer, so they always failed (receive_from
 also lost the datagram)

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..8e6de2b 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 1cd307dcc0f00f389663dc24d1c0fe6a9caece9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 55/96] fix: socket_create leaked the socket whenever binding
 or connecting failed

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 8e6de2b..39d577d 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -67,6 +67,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -76,11 +77,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 #   if defined(ZPL_SYSTEM_WINDOWS)
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -89,6 +92,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
-- 
2.43.0


From be93924a40368a51e99d41e2546acf36df588e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 56/96] fix: socket_send on a connection the peer had closed
 killed the process with SIGPIPE instead of returning -1

---
 code/source/socket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 39d577d..1fbbd20 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -17,6 +17,13 @@ typedef int socklen_t;
 #   endif
 #endif
 
+// NOTE: Report a closed connection as an error instead of raising SIGPIPE
+#ifdef MSG_NOSIGNAL
+#   define ZPL__SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+#   define ZPL__SOCKET_SEND_FLAGS 0
+#endif
+
 ZPL_DEF zpl_socket zpl_socket_init(void) {
 #   if defined(ZPL_SYSTEM_WINDOWS)
     WSADATA winsock_data = {0};
@@ -151,7 +158,7 @@ ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, z
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send(zpl_socket socket, const char *data, zpl_i32 size) {
-    return send(socket, data, size, 0);
+    return send(socket, data, size, ZPL__SOCKET_SEND_FLAGS);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size) {
@@ -159,7 +166,7 @@ ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, const char *data, zpl_i32 size) {
-    return sendto(socket, data, size, 0, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
+    return sendto(socket, data, size, ZPL__SOCKET_SEND_FLAGS, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-- 
2.43.0


From 5eb621408e42e684626493bd55d7d5372d5f0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 57/96] fix: socket_select and socket_multi_select wrote
 outside their descriptor set for handles of FD_SETSIZE and above

---
 code/source/socket.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 1fbbd20..5196def 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -178,6 +178,10 @@ ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     fd_set fds;
     struct timeval tv;
 
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+    if (socket >= FD_SETSIZE) return -1;
+#   endif
+
     FD_ZERO(&fds);
     if (socket > -1) FD_SET(socket, &fds);
 
@@ -194,6 +198,9 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+        if (sockets[i] >= FD_SETSIZE) return -1;
+#   endif
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From ac5bbf921e6a4285d26790d4c32ae4bf60ecf572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 58/96] fix: memset, memmove, memswap and memchr accessed the
 caller's objects through words of another type, so that optimised programs
 (gcc -O2) that include the library read the values from before the call

---
 code/header/essentials/memory.h | 51 ++++++++++++++++++++-------------
 code/source/essentials/memory.c |  8 +++---
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 4ca13a6..654777b 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -106,6 +106,17 @@ do {
 #endif
 
 
+// NOTE: Words through which memory holding objects of any type may be accessed
+#if defined(ZPL_COMPILER_GCC) || defined(ZPL_COMPILER_CLANG)
+typedef zpl_u32 __attribute__((__may_alias__)) zpl__mem_u32;
+typedef zpl_u64 __attribute__((__may_alias__)) zpl__mem_u64;
+typedef zpl_isize __attribute__((__may_alias__)) zpl__mem_isize;
+#else
+typedef zpl_u32 zpl__mem_u32;
+typedef zpl_u64 zpl__mem_u64;
+typedef zpl_isize zpl__mem_isize;
+#endif
+
 /* inlines */
 
 #define ZPL__ONES (cast(zpl_usize) - 1 / ZPL_U8_MAX)
@@ -164,7 +175,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
                 *d++ = *s++;
             }
             while (n >= zpl_size_of(zpl_isize)) {
-                *cast(zpl_isize *) d = *cast(zpl_isize *) s;
+                *cast(zpl__mem_isize *) d = *cast(zpl__mem_isize *) s;
                 n -= zpl_size_of(zpl_isize);
                 d += zpl_size_of(zpl_isize);
                 s += zpl_size_of(zpl_isize);
@@ -179,7 +190,7 @@ ZPL_IMPL_INLINE void *zpl_memmove(void *dest, void const *source, zpl_isize n) {
             }
             while (n >= zpl_size_of(zpl_isize)) {
                 n -= zpl_size_of(zpl_isize);
-                *cast(zpl_isize *)(d + n) = *cast(zpl_isize *)(s + n);
+                *cast(zpl__mem_isize *)(d + n) = *cast(zpl__mem_isize *)(s + n);
             }
         }
         while (n) n--, d[n] = s[n];
@@ -209,22 +220,22 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     n -= k;
     n &= -4;
 
-    *cast(zpl_u32 *)(s + 0) = c32;
-    *cast(zpl_u32 *)(s + n - 4) = c32;
+    *cast(zpl__mem_u32 *)(s + 0) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 4) = c32;
     if (n < 9) return dest;
-    *cast(zpl_u32 *)(s + 4) = c32;
-    *cast(zpl_u32 *)(s + 8) = c32;
-    *cast(zpl_u32 *)(s + n - 12) = c32;
-    *cast(zpl_u32 *)(s + n - 8) = c32;
+    *cast(zpl__mem_u32 *)(s + 4) = c32;
+    *cast(zpl__mem_u32 *)(s + 8) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 12) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 8) = c32;
     if (n < 25) return dest;
-    *cast(zpl_u32 *)(s + 12) = c32;
-    *cast(zpl_u32 *)(s + 16) = c32;
-    *cast(zpl_u32 *)(s + 20) = c32;
-    *cast(zpl_u32 *)(s + 24) = c32;
-    *cast(zpl_u32 *)(s + n - 28) = c32;
-    *cast(zpl_u32 *)(s + n - 24) = c32;
-    *cast(zpl_u32 *)(s + n - 20) = c32;
-    *cast(zpl_u32 *)(s + n - 16) = c32;
+    *cast(zpl__mem_u32 *)(s + 12) = c32;
+    *cast(zpl__mem_u32 *)(s + 16) = c32;
+    *cast(zpl__mem_u32 *)(s + 20) = c32;
+    *cast(zpl__mem_u32 *)(s + 24) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 28) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 24) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 20) = c32;
+    *cast(zpl__mem_u32 *)(s + n - 16) = c32;
 
     k = 24 + (cast(zpl_uintptr) s & 4);
     s += k;
@@ -233,10 +244,10 @@ ZPL_IMPL_INLINE void *zpl_memset(void *dest, zpl_u8 c, zpl_isize n) {
     {
         zpl_u64 c64 = (cast(zpl_u64) c32 << 32) | c32;
         while (n > 31) {
-            *cast(zpl_u64 *)(s + 0) = c64;
-            *cast(zpl_u64 *)(s + 8) = c64;
-            *cast(zpl_u64 *)(s + 16) = c64;
-            *cast(zpl_u64 *)(s + 24) = c64;
+            *cast(zpl__mem_u64 *)(s + 0) = c64;
+            *cast(zpl__mem_u64 *)(s + 8) = c64;
+            *cast(zpl__mem_u64 *)(s + 16) = c64;
+            *cast(zpl__mem_u64 *)(s + 24) = c64;
 
             n -= 32;
             s += 32;
diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 15ac168..ac49f1a 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -10,9 +10,9 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
     if (i == j) return;
 
     if (size == 4) {
-        zpl_swap(zpl_u32, *cast(zpl_u32 *) i, *cast(zpl_u32 *) j);
+        zpl_swap(zpl_u32, *cast(zpl__mem_u32 *) i, *cast(zpl__mem_u32 *) j);
     } else if (size == 8) {
-        zpl_swap(zpl_u64, *cast(zpl_u64 *) i, *cast(zpl_u64 *) j);
+        zpl_swap(zpl_u64, *cast(zpl__mem_u64 *) i, *cast(zpl__mem_u64 *) j);
     } else if (size < 8) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
@@ -42,9 +42,9 @@ void const *zpl_memchr(void const *data, zpl_u8 c, zpl_isize n) {
         n--;
     }
     if (n && *s != c) {
-        zpl_isize const *w;
+        zpl__mem_isize const *w;
         zpl_isize k = ZPL__ONES * c;
-        w = cast(zpl_isize const *) s;
+        w = cast(zpl__mem_isize const *) s;
         while (n >= zpl_size_of(zpl_isize) && !ZPL__HAS_ZERO(*w ^ k)) {
             w++;
             n -= zpl_size_of(zpl_isize);
-- 
2.43.0


From c2245bbb2536b6d4e1e04e1baf222ee80d9729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 59/96] fix: murmur32_seed and murmur64_seed read the caller's
 objects through words of another type, so that optimised single-file programs
 (gcc -O2) hashed values from before the last stores

---
 code/source/hashing.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index 48a0ae6..52d52fc 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -338,7 +338,7 @@ zpl_u32 zpl_murmur32_seed(void const *data, zpl_isize len, zpl_u32 seed) {
 
     zpl_isize i, nblocks = len / 4;
     zpl_u32 hash = seed, k1 = 0;
-    zpl_u32 const *blocks = cast(zpl_u32 const *) data;
+    zpl__mem_u32 const *blocks = cast(zpl__mem_u32 const *) data;
     zpl_u8 const *tail = cast(zpl_u8 const *)(data) + nblocks * 4;
 
     for (i = 0; i < nblocks; i++) {
@@ -379,9 +379,9 @@ zpl_u64 zpl_murmur64_seed(void const *data_, zpl_isize len, zpl_u64 seed) {
 
     zpl_u64 h = seed ^ (len * m);
 
-    zpl_u64 const *data = cast(zpl_u64 const *) data_;
+    zpl__mem_u64 const *data = cast(zpl__mem_u64 const *) data_;
     zpl_u8 const *data2 = cast(zpl_u8 const *) data_;
-    zpl_u64 const *end = data + (len / 8);
+    zpl__mem_u64 const *end = data + (len / 8);
 
     while (data != end) {
         zpl_u64 k = *data++;
-- 
2.43.0


From 53f8262d906a98c12a1fbbf78dec4ba9a7f33083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 60/96] fix: sleep_ms returned early when a signal arrived

---
 code/source/core/time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..6830e3e 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -4,6 +4,7 @@
 #if defined(ZPL_SYSTEM_MACOS) || ZPL_SYSTEM_UNIX
 #    include <time.h>
 #    include <sys/time.h>
+#    include <errno.h>
 #endif
 
 #if defined(ZPL_SYSTEM_MACOS)
@@ -206,7 +207,9 @@ ZPL_BEGIN_C_DECLS
     void zpl_sleep_ms(zpl_u32 ms) {
         struct timespec req = { cast(time_t)(ms * 1e-3), cast(long)((ms % 1000) * 1e6) };
         struct timespec rem = { 0, 0 };
-        nanosleep(&req, &rem);
+
+        // NOTE: A signal ends the sleep early, go on with what is left
+        while (nanosleep(&req, &rem) == -1 && errno == EINTR) req = rem;
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
-- 
2.43.0


From db7ba37ab2a279ac2cd97c570c61a428a045647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 61/96] fix: zpl_sleep cut the fraction of a millisecond, so it
 slept less than requested (and not at all below one millisecond)

---
 code/header/core/time.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/header/core/time.h b/code/header/core/time.h
index 2cb3fb7..8913f01 100644
--- a/code/header/core/time.h
+++ b/code/header/core/time.h
@@ -66,7 +66,9 @@ ZPL_IMPL_INLINE zpl_u64 zpl_time_unix_to_win32(zpl_u64 ms) {
 }
 
 ZPL_IMPL_INLINE void zpl_sleep(zpl_f32 s) {
-    zpl_sleep_ms((zpl_u32)(s * 1000));
+    zpl_f32 ms = s * 1000;
+    zpl_u32 whole = (zpl_u32)ms;
+    zpl_sleep_ms(whole + (cast(zpl_f32) whole < ms)); // NOTE: Round up
 }
 
 ZPL_IMPL_INLINE zpl_f64 zpl_time_now() {
-- 
2.43.0


From 2ba9bdef4b1d057cb5c28b942516ff614529754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 62/96] fix: time_tz_ms was off by an hour or more in zones
 whose offset or daylight saving differs from the current standard one, and
 around changes of the offset

---
 code/source/core/time.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index 6830e3e..ee352b6 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -218,8 +218,7 @@ ZPL_BEGIN_C_DECLS
         zpl_u16 ms = result % 1000;
         result *= 1e-3;
         localtime_r((const time_t*)&result, &t);
-        result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        return (result + t.tm_gmtoff) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
     }
 #endif
 
-- 
2.43.0


From 093b28200a3c3e15f8d17016a825440aab4c00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 63/96] fix: threads that asked for the relative time for the
 first time at once moved its start, so readings went back or wrapped around

---
 code/source/core/time.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index ee352b6..800a09c 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -180,7 +180,15 @@ ZPL_BEGIN_C_DECLS
 #    else
         zpl_local_persist zpl_u64 unix_timestart = 0.0;
 
-        if (!unix_timestart) { unix_timestart = zpl__unix_gettime( ); }
+        if (!unix_timestart) {
+            // NOTE: Of threads that get here at once, only the first one sets the start
+            zpl_u64 start = zpl__unix_gettime( );
+#       if defined(ZPL_COMPILER_GCC) || defined(ZPL_COMPILER_CLANG)
+            __sync_bool_compare_and_swap(&unix_timestart, 0, start);
+#       else
+            if (!unix_timestart) unix_timestart = start;
+#       endif
+        }
 
         zpl_u64 now = zpl__unix_gettime( );
 
-- 
2.43.0


From 7e5e358c25356e58f50731e3d3fad0c54e223c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 64/96] fix: zpl_string_join crashed when the allocator refused
 a growth, and lost the string made so far

---
 code/source/core/stringlib.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..3f6525f 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -83,17 +83,22 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
 }
 
 ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
-    zpl_string ret;
+    zpl_string ret, next;
     zpl_isize i;
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        next = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next && (i+1) < count) {
+            ret = next;
+            next = zpl_string_appendc(ret, glue);
         }
+
+        // NOTE: A refused growth leaves the string as it was
+        if (!next) zpl_string_free(ret);
+        ret = next;
     }
 
     return ret;
-- 
2.43.0


From c318c20db8418435bde0d8a15cefe505bf43b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 65/96] fix: zpl_vm_alloc returned MAP_FAILED as if it were
 memory when the system refused a region

---
 code/source/core/memory_virtual.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..457f20a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -78,6 +78,10 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
         vm.size = size;
+        if (vm.data == MAP_FAILED) {
+            vm.data = NULL;
+            vm.size = 0;
+        }
         return vm;
     }
 
-- 
2.43.0


From d6a62a6e9bf088450797306489872a03be366ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 66/96] fix: zpl_vm_trim released the region it was to keep and
 left the rest behind it mapped

---
 code/source/core/memory_virtual.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 457f20a..0905311 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -92,14 +92,17 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
         void *ptr;
-        zpl_isize trail_size;
+        zpl_isize page_size, keep_size, trail_size;
         ZPL_ASSERT(vm.size >= lead_size + size);
 
         ptr = zpl_pointer_add(vm.data, lead_size);
-        trail_size = vm.size - lead_size - size;
+        // NOTE: only whole pages can be released
+        page_size = zpl_virtual_memory_page_size(NULL);
+        keep_size = (size + page_size - 1) / page_size * page_size;
+        trail_size = vm.size - lead_size - keep_size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size > 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, keep_size), trail_size));
         return zpl_vm(ptr, size);
     }
 
-- 
2.43.0


From 763931b3091f51b4cbadae89b772468a0a7c9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 67/96] fix: zpl_vm_purge reported success as failure and
 zpl_vm_free never reported one

---
 code/source/core/memory_virtual.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 0905311..a6643c5 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -86,8 +86,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
@@ -108,7 +107,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From 80bae400b8c298214c65f39659ef2a55e098af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 68/96] fix: zpl_system_command_str dropped the zero bytes of a
 command's output

---
 code/source/core/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..50ce05a 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -122,8 +122,8 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
 
         int c;
         while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+            char ins = (char)c;
+            output = zpl_string_append_length(output, &ins, 1);
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From 7420d7fe472631106e44476a4e76ce0014488970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 69/96] fix: zpl_system_command_str crashed when its allocator
 refused memory

---
 code/source/core/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 50ce05a..656cfce 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -121,9 +121,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
+        while (output && (c = getc(handle)) != EOF) {
             char ins = (char)c;
-            output = zpl_string_append_length(output, &ins, 1);
+            zpl_string next = zpl_string_append_length(output, &ins, 1);
+            if (!next) zpl_string_free(output);
+            output = next;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From 3feed6dd3e6fd9af17bc92e1090ed2a649ae04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 70/96] fix: ZPL_ASSERT_NOT_NULL and zpl_assert_crash took the
 text of the condition for a format, so a percent sign in it garbled the
 report or crashed it

---
 code/header/essentials/debug.h | 2 +-
 code/source/essentials/debug.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/essentials/debug.h b/code/header/essentials/debug.h
index 5e40c67..6b51bf2 100644
--- a/code/header/essentials/debug.h
+++ b/code/header/essentials/debug.h
@@ -33,7 +33,7 @@ ZPL_BEGIN_C_DECLS
 #endif
 
 #ifndef ZPL_ASSERT_NOT_NULL
-#    define ZPL_ASSERT_NOT_NULL(ptr) ZPL_ASSERT_MSG((ptr) != NULL, #ptr " must not be NULL")
+#    define ZPL_ASSERT_NOT_NULL(ptr) ZPL_ASSERT_MSG((ptr) != NULL, "%s", #ptr " must not be NULL")
 #endif
 
 // NOTE: Things that shouldn't happen with a message!
diff --git a/code/source/essentials/debug.c b/code/source/essentials/debug.c
index cbabee8..5b7cab9 100644
--- a/code/source/essentials/debug.c
+++ b/code/source/essentials/debug.c
@@ -19,7 +19,7 @@ void zpl_assert_handler(char const *condition, char const *file, zpl_i32 line, c
 }
 
 zpl_i32 zpl_assert_crash(char const *condition) {
-    ZPL_PANIC(condition);
+    ZPL_PANIC("%s", condition);
     return 0;
 }
 
-- 
2.43.0


From ff1e2a8f97a1a985d745f72e574d4d5c45a5b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 71/96] fix: zpl_utf8_strlen and zpl_utf8_strnlen walked past
 the end of a string whose last UTF-8 sequence is cut short

---
 code/header/core/string.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 34509dc..3d38ef1 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -200,7 +200,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
         else
             return -1;
 
-        str += inc;
+        // NOTE: a sequence may be cut short by the end of the text
+        while (inc-- > 0)
+            if (!*str++) return -1;
     }
     return count;
 }
@@ -221,8 +223,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len)
         else
             return -1;
 
-        str += inc;
-        max_len -= inc;
+        // NOTE: a sequence may be cut short by the end of the text
+        for (; inc > 0 && max_len > 0; inc--, max_len--)
+            if (!*str++) return -1;
     }
     return count;
 }
-- 
2.43.0


From 7b1512e39824742d2384648528bd3733e45a33c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 72/96] fix: memory streams, arrays and the heap served
 requests whose size had overflowed, so writes after a seek to a huge offset
 went out of bounds

---
 code/header/essentials/collections/array.h |  7 +++++++
 code/source/core/file_stream.c             | 12 +++++++++---
 code/source/essentials/memory_custom.c     |  2 +-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..10def31 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -87,7 +87,13 @@ ZPL_STATIC_ASSERT(ZPL_ARRAY_GROW_FORMULA(0) > 0, "ZPL_ARRAY_GROW_FORMULA(0) <= 0
 #define zpl_array_capacity(x)  (ZPL_ARRAY_HEADER(x)->capacity)
 #define zpl_array_end(x)       (x + (zpl_array_count(x) - 1))
 
+// NOTE: Tells whether the storage for that many elements can be described by a size at all
+ZPL_IMPL_INLINE zpl_b8 zpl__array_is_valid_capacity(zpl_isize elem_size, zpl_isize cap) {
+    return cap >= 0 && cap <= (ZPL_ISIZE_MAX - zpl_size_of(zpl_array_header)) / elem_size;
+}
+
 ZPL_IMPL_INLINE zpl_b8 zpl__array_init_reserve(void **zpl__array_, zpl_allocator allocator_, zpl_isize elem_size, zpl_isize cap) {
+    if (!zpl__array_is_valid_capacity(elem_size, cap)) return false;
     zpl_array_header *zpl__ah =
     cast(zpl_array_header *) zpl_alloc(allocator_, zpl_size_of(zpl_array_header) + elem_size * cap);
     if (!zpl__ah) return false;
@@ -115,6 +121,7 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
+    if (!zpl__array_is_valid_capacity(h->elem_size, capacity)) return false;
     if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 8a54793..2b97029 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -101,7 +101,10 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
     else if (whence == ZPL_SEEK_WHENCE_END)
         d->cursor = buflen;
 
-    d->cursor = zpl_max(0, zpl_clamp(d->cursor + offset, 0, buflen));
+    // NOTE: the cursor lies within the contents, so these differences can not overflow
+    if (offset < -cast(zpl_i64) d->cursor) d->cursor = 0;
+    else if (offset > cast(zpl_i64)(buflen - d->cursor)) d->cursor = buflen;
+    else d->cursor = cast(zpl_isize)(d->cursor + offset);
     if (new_offset) *new_offset = d->cursor;
     return true;
 }
@@ -123,8 +126,11 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     if (offset < 0 || size < 0) return false;
     zpl_isize buflen = d->cap;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        zpl_isize new_cap = zpl_max(buflen, cast(zpl_isize)(offset + size));
-        if (size == 0) new_cap = buflen;
+        zpl_isize new_cap = buflen;
+        if (size > 0) {
+            if (offset > ZPL_ISIZE_MAX - size) return false;
+            new_cap = zpl_max(buflen, cast(zpl_isize)(offset + size));
+        }
         if (zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index f7c56e1..3378e3b 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -111,7 +111,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #elif defined(ZPL_SYSTEM_LINUX) && !defined(ZPL_CPU_ARM) && !defined(ZPL_COMPILER_TINYC)
         case ZPL_ALLOCATION_ALLOC: {
-            ptr = aligned_alloc(alignment, (size + alignment - 1) & ~(alignment - 1));
+            ptr = aligned_alloc(alignment, (cast(zpl_usize)size + alignment - 1) & ~(cast(zpl_usize)alignment - 1));
 
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) { zpl_zero_size(ptr, size); }
         } break;
-- 
2.43.0


From c4f3d02cb9309dbdb338cec8fb346c14aa7823d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 73/96] fix: arenas, scratch memory and stacks served requests
 of a size that overflows, returning memory they do not have

---
 code/source/essentials/memory_custom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 3378e3b..87c9ead 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -175,7 +175,7 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
             zpl_isize total_size = size + zpl_arena_alignment_of(arena, alignment);
 
             // NOTE: Out of memory
-            if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
+            if (size > cast(zpl_isize) arena->total_size || arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
                 return NULL;
             }
 
@@ -337,6 +337,7 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
             void *pt, *data;
 
             ZPL_ASSERT(alignment % 4 == 0);
+            if (size > cast(zpl_isize) s->total_size) break;
             size = zpl_align_forward_i64(zpl_max(size, 1), zpl_size_of(zpl_allocation_header_ev));
 
             // NOTE: Nothing is in use, start over
@@ -418,8 +419,9 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
             void *curr =
                 zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment);
 
-            if (zpl_pointer_diff(s->physical_start, curr) + size > cast(zpl_isize) s->total_size) {
+            if (size > cast(zpl_isize) s->total_size - zpl_pointer_diff(s->physical_start, curr)) {
                 if (s->backing.proc) {
+                    if (size > ZPL_ISIZE_MAX - cast(zpl_isize)(s->total_size + ZPL_STACK_ALLOC_OFFSET + alignment)) return NULL;
                     zpl_isize new_size = s->total_size + ZPL_STACK_ALLOC_OFFSET + alignment + size;
                     void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_size, alignment);
                     if (!new_start) return NULL;
-- 
2.43.0


From fe4150074512a9f79a518557745ee0118be5b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 74/96] fix: arrays, buffers, rings and tables crashed, lost
 entries or reported success when their allocator refused memory

---
 code/header/essentials/collections/array.h    |  2 +-
 code/header/essentials/collections/buffer.h   | 20 +++++++++-----
 .../header/essentials/collections/hashtable.h | 27 ++++++++++++++-----
 code/header/essentials/collections/ring.h     |  9 ++++---
 4 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 10def31..e564281 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -122,10 +122,10 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity)
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
     if (!zpl__array_is_valid_capacity(h->elem_size, capacity)) return false;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index 9a0c6bd..e56ddc1 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -40,13 +40,17 @@ do {
     void **nx = cast(void **) & (x);                                                                               \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
-    zpl__bh->backing = allocator;                                                                                  \
-    zpl__bh->count = 0;                                                                                            \
-    zpl__bh->capacity = cap;                                                                                       \
-    *nx = cast(void *)(zpl__bh + 1);                                                                               \
+    if (zpl__bh) {                                                                                                 \
+        zpl__bh->backing = allocator;                                                                              \
+        zpl__bh->count = 0;                                                                                        \
+        zpl__bh->capacity = cap;                                                                                   \
+        *nx = cast(void *)(zpl__bh + 1);                                                                           \
+    } else {                                                                                                       \
+        *nx = NULL;                                                                                                \
+    }                                                                                                              \
 } while (0)
 
-#define zpl_buffer_free(x) (zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)))
+#define zpl_buffer_free(x) ((x) ? zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)) : (void)0)
 
 #define zpl_buffer_append(x, item)                                                                                     \
 do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
@@ -62,8 +66,10 @@ do {
 #define zpl_buffer_copy_init(y, x)                                                                                     \
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
-    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                                   \
-    zpl_buffer_count(y) = zpl_buffer_count(x);                                                                     \
+    if (y) {                                                                                                       \
+        zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                               \
+        zpl_buffer_count(y) = zpl_buffer_count(x);                                                                 \
+    }                                                                                                              \
 } while (0)
 
 #define zpl_buffer_pop(x)                                                                                              \
diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index fc24cdf..e0e2014 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -82,8 +82,13 @@ typedef struct zpl_hash_table_find_result {
 
 #define ZPL_TABLE_DEFINE(NAME, FUNC, VALUE)                                                                         \
     void ZPL_JOIN2(FUNC, init)(NAME * h, zpl_allocator a) {                                                         \
-        zpl_array_init(h->hashes, a);                                                                               \
-        zpl_array_init(h->entries, a);                                                                              \
+        h->hashes = NULL;                                                                                           \
+        h->entries = NULL;                                                                                          \
+        if (!zpl_array_init(h->hashes, a)) return;                                                                  \
+        if (!zpl_array_init(h->entries, a)) {                                                                       \
+            zpl_array_free(h->hashes);                                                                              \
+            h->hashes = NULL;                                                                                       \
+        }                                                                                                           \
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, destroy)(NAME * h) {                                                                       \
@@ -111,7 +116,7 @@ typedef struct zpl_hash_table_find_result {
         e.key = key;                                                                                                \
         e.next = -1;                                                                                                \
         index = zpl_array_count(h->entries);                                                                        \
-        zpl_array_append(h->entries, e);                                                                            \
+        if (!zpl_array_append(h->entries, e)) return -1;                                                            \
         return index;                                                                                               \
     }                                                                                                               \
                                                                                                                     \
@@ -142,8 +147,12 @@ typedef struct zpl_hash_table_find_result {
         zpl_isize i, j;                                                                                             \
         NAME nh = { 0 };                                                                                            \
         ZPL_JOIN2(FUNC, init)(&nh, zpl_array_allocator(h->hashes));                                                 \
-        zpl_array_resize(nh.hashes, new_count);                                                                     \
-        zpl_array_reserve(nh.entries, zpl_array_count(h->entries));                                                 \
+        /* NOTE: when memory is refused the table stays as it is */                                                 \
+        if (!nh.hashes) return;                                                                                     \
+        if (!zpl_array_resize(nh.hashes, new_count) || !zpl_array_reserve(nh.entries, zpl_array_count(h->entries))) {\
+            ZPL_JOIN2(FUNC, destroy)(&nh);                                                                          \
+            return;                                                                                                 \
+        }                                                                                                           \
         for (i = 0; i < new_count; i++) nh.hashes[i] = -1;                                                          \
         for (i = 0; i < zpl_array_count(h->entries); i++) {                                                         \
             ZPL_JOIN2(NAME, Entry) * e;                                                                             \
@@ -151,7 +160,11 @@ typedef struct zpl_hash_table_find_result {
             if (zpl_array_count(nh.hashes) == 0) ZPL_JOIN2(FUNC, grow)(&nh);                                        \
             e = &h->entries[i];                                                                                     \
             fr = ZPL_JOIN2(FUNC, _find)(&nh, e->key);                                                               \
-            j = ZPL_JOIN2(FUNC, _add_entry)(&nh, e->key);                                                           \
+            j = fr.hash_index < 0 ? -1 : ZPL_JOIN2(FUNC, _add_entry)(&nh, e->key);                                  \
+            if (j < 0) {                                                                                            \
+                ZPL_JOIN2(FUNC, destroy)(&nh);                                                                      \
+                return;                                                                                             \
+            }                                                                                                       \
             if (fr.entry_prev < 0)                                                                                  \
                 nh.hashes[fr.hash_index] = j;                                                                       \
             else                                                                                                    \
@@ -219,10 +232,12 @@ typedef struct zpl_hash_table_find_result {
         zpl_hash_table_find_result fr;                                                                              \
         if (zpl_array_count(h->hashes) == 0) ZPL_JOIN2(FUNC, grow)(h);                                              \
         fr = ZPL_JOIN2(FUNC, _find)(h, key);                                                                        \
+        if (fr.hash_index < 0) return;                                                                              \
         if (fr.entry_index >= 0) {                                                                                  \
             index = fr.entry_index;                                                                                 \
         } else {                                                                                                    \
             index = ZPL_JOIN2(FUNC, _add_entry)(h, key);                                                            \
+            if (index < 0) return;                                                                                  \
             if (fr.entry_prev >= 0) {                                                                               \
                 h->entries[fr.entry_prev].next = index;                                                             \
             } else {                                                                                                \
diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index 5645442..d94fadb 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -53,7 +53,8 @@ ZPL_JOIN2(func, type) pad_ = { 0 };
 \
 pad->backing = a;                                                                                              \
 zpl_buffer_init(pad->buf, a, max_size + 1);                                                                    \
-pad->capacity = max_size + 1;                                                                                  \
+/* a ring without memory is both empty and full */                                                             \
+pad->capacity = pad->buf ? max_size + 1 : 1;                                                                   \
 pad->head = pad->tail = 0;                                                                                     \
 }                                                                                                                  \
 void ZPL_JOIN2(func, free)(ZPL_JOIN2(func, type) * pad) {                                         \
@@ -67,6 +68,7 @@ return ((pad->head + 1) % pad->capacity) == pad->tail;
 zpl_b32 ZPL_JOIN2(func, empty)(ZPL_JOIN2(func, type) * pad) { return pad->head == pad->tail; }        \
 \
 void ZPL_JOIN2(func, append)(ZPL_JOIN2(func, type) * pad, type data) {                            \
+if (!pad->buf) return;                                                                                         \
 pad->buf[pad->head] = data;                                                                                    \
 pad->head = (pad->head + 1) % pad->capacity;                                                                   \
 \
@@ -90,9 +92,10 @@ return data;
 zpl_array(type)                                                                                                    \
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
-zpl_array_init(vals, a);                                                                                       \
+if (!zpl_array_init(vals, a)) { return NULL; }                                                                 \
 while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
-zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
+if (!zpl_array_append(vals, pad->buf[pad->tail])) { break; }                                                   \
+ZPL_JOIN2(func, get)(pad);                                                                                     \
 }                                                                                                              \
 return vals;                                                                                                   \
 }
-- 
2.43.0


From 741d9534f40fbdbacac939bb3744656dc6dfa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:01 +0000
Subject: [PATCH 75/96] fix: alloc_str_len, stack memory and pools wrote
 through a null pointer when their allocator refused memory

---
 code/header/essentials/memory_custom.h | 3 ++-
 code/source/essentials/memory_custom.c | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index d347c40..e139a56 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
@@ -445,7 +446,7 @@ ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
 }
 
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 87c9ead..dc97b7c 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -222,6 +222,12 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
 
     data = zpl_alloc_align(backing, pool_size, block_align);
 
+    // NOTE: Out of memory, there are no blocks
+    if (!data) {
+        pool->num_blocks = 0;
+        return;
+    }
+
     // NOTE: Init intrusive freelist
     curr = data;
     for (block_index = 0; block_index < num_blocks - 1; block_index++) {
@@ -274,6 +280,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 
             actual_block_size = zpl_align_forward_i64(zpl_max(pool->block_size, zpl_size_of(zpl_uintptr)), pool->block_align);
             pool->total_size = 0;
+            if (!pool->physical_start) break;
 
             // NOTE: Init intrusive freelist
             curr = pool->physical_start;
-- 
2.43.0


From e66ee44fa04948ae962194972cb65cc2d5c7d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 76/96] fix: zpl_str_split_lines and the base64 functions
 crashed or dropped lines when their allocator refused memory

---
 code/header/core/string.h | 7 +++++--
 code/source/hashing.c     | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 3d38ef1..8427c8c 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -439,14 +439,17 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
         if (*pd == '\n' || *pd == '\0') {
             zpl_b32 is_last = (*pd == '\0');
             *pd = 0;
             if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
-            if (!strip_whitespace || *p) zpl_array_append(lines, p);
+            if ((!strip_whitespace || *p) && !zpl_array_append(lines, p)) {
+                zpl_array_free(lines);
+                return NULL;
+            }
             if (is_last) break;
             p = pd + 1;
         }
diff --git a/code/source/hashing.c b/code/source/hashing.c
index 52d52fc..c949d4c 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -258,6 +258,7 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (!ret) return NULL;
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
@@ -306,7 +307,7 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
     alen = zpl__base64_decoded_size(s, len);
     ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
 
-    ZPL_ASSERT_NOT_NULL(ret);
+    if (!ret) return NULL;
 
     ret[alen] = 0;
 
-- 
2.43.0


From 1630c472eedd4c19ad5b45ea93b323251389c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 77/96] fix: zpl_re_compile reported success, and matching all
 crashed, when the allocator refused memory

---
 code/source/regex.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 1b55a7e..374ce00 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -364,7 +364,9 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_TOO_LONG;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -391,7 +393,9 @@ static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, c
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_TOO_LONG;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -749,6 +753,11 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->buf_cap = cap;
     re->can_realloc = 1;
 
+    if (!re->buf) {
+        re->buf_cap = 0;
+        return ZPL_RE_ERROR_TOO_LONG;
+    }
+
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
     if (err)
@@ -796,6 +805,8 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
 
     zpl_buffer_make(zpl_re_capture, cps, zpl_heap(), max_capture_count);
 
+    if (!cps) return false;
+
     zpl_isize offset = 0;
 
     while (p < end)
@@ -813,7 +824,10 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
         p += (offset > 0) ? offset : 1;
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
-            zpl_array_append(*out_captures, cps[i]);
+            if (!zpl_array_append(*out_captures, cps[i])) {
+                zpl_buffer_free(cps);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From e4c7ac67d80f660c2630be3634946c8362320d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:17 +0000
Subject: [PATCH 78/96] fix: command-line options crashed or took a refused
 value for given when the allocator refused memory

---
 code/source/opts.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index cf6c11f..37e1964 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -14,13 +14,13 @@ void zpl_opts_init(zpl_opts *opts, zpl_allocator a, char const *app) {
     opts->alloc = a;
     opts->appname = app;
 
-    zpl_array_init(opts->entries, a);
-    zpl_array_init(opts->positioned, a);
-    zpl_array_init(opts->errors, a);
+    if (!zpl_array_init(opts->entries, a) || !zpl_array_init(opts->positioned, a) || !zpl_array_init(opts->errors, a)) {
+        zpl_opts_free(opts);
+    }
 }
 
 void zpl_opts_free(zpl_opts *opts) {
-    for (zpl_i32 i = 0; i < zpl_array_count(opts->entries); ++i) {
+    for (zpl_i32 i = 0; opts->entries && i < zpl_array_count(opts->entries); ++i) {
         zpl_opts_entry *e = opts->entries + i;
         if (e->type == ZPL_OPTS_STRING) {
             zpl_string_free(e->text);
@@ -30,6 +30,9 @@ void zpl_opts_free(zpl_opts *opts) {
     zpl_array_free(opts->entries);
     zpl_array_free(opts->positioned);
     zpl_array_free(opts->errors);
+    opts->entries = NULL;
+    opts->positioned = NULL;
+    opts->errors = NULL;
 }
 
 void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const char *desc, zpl_u8 type) {
@@ -94,13 +97,14 @@ zpl_i64 zpl_opts_integer(zpl_opts *opts, char const *name, zpl_i64 fallback) {
     return (e && e->met) ? e->integer : fallback;
 }
 
-void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
+zpl_b32 zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     t->met = true;
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
             zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
+            t->met = t->text != NULL;
         } break;
 
         case ZPL_OPTS_FLOAT: {
@@ -118,6 +122,8 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
             break;
         }
     }
+
+    return t->met;
 }
 
 zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
@@ -235,7 +241,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                     }
 
                     e = cast(char *)zpl_str_control_skip(e, '\0');
-                    zpl__opts_set_value(opts, t, b);
+                    if (!zpl__opts_set_value(opts, t, b)) had_errors = true;
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
                     had_errors = true;
@@ -243,7 +249,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
             } else if (zpl_array_count(opts->positioned)) {
                 zpl_opts_entry *l = zpl_array_back(opts->positioned);
                 zpl_array_pop(opts->positioned);
-                zpl__opts_set_value(opts, l, p);
+                if (!zpl__opts_set_value(opts, l, p)) had_errors = true;
             } else {
                 zpl__opts_push_error(opts, p, ZPL_OPTS_ERR_VALUE);
                 had_errors = true;
-- 
2.43.0


From cb967971ccfcc9634cc9c748bf239466d9a24478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 79/96] fix: reading files, listing and packing directories and
 zpl_get_env crashed or leaked when memory was refused

---
 code/source/core/file.c      | 31 ++++++++----
 code/source/core/file_misc.c | 93 +++++++++++++++++++++++-------------
 code/source/core/file_tar.c  |  6 ++-
 code/source/core/misc.c      |  1 +
 4 files changed, 87 insertions(+), 44 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index f3bfbc1..7c430a9 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -237,6 +237,7 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
     f->dir = NULL;
     f->last_write_time = 0;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
+    if (f->filename == NULL) return ZPL_FILE_ERROR_UNKNOWN;
     zpl_memcopy(cast(char *) f->filename, cast(char *) filename, len + 1);
 
     return err;
@@ -251,7 +252,10 @@ zpl_file_error zpl_file_open_mode(zpl_file *f, zpl_file_mode mode, char const *f
 #else
     err = zpl__posix_file_open(&f->fd, &f->ops, mode, filename);
 #endif
-    if (err == ZPL_FILE_ERROR_NONE) return zpl_file_new(f, f->fd, f->ops, filename);
+    if (err == ZPL_FILE_ERROR_NONE) {
+        err = zpl_file_new(f, f->fd, f->ops, filename);
+        if (err != ZPL_FILE_ERROR_NONE) f->ops.close(f->fd);
+    }
     return err;
 }
 
@@ -446,11 +450,13 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
-                zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+            if (result.data) {
+                result.size = file_size;
+                zpl_file_read_at(&file, result.data, result.size, 0);
+                if (zero_terminate) {
+                    zpl_u8 *str = cast(zpl_u8 *) result.data;
+                    str[file_size] = '\0';
+                }
             }
         }
         zpl_file_close(&file);
@@ -493,10 +499,17 @@ char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char con
     zpl_file_open(&f, filename);
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
+    *lines = NULL;
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
-    contents[fsize] = 0;
-    *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    if (contents) {
+        zpl_file_read(&f, contents, fsize);
+        contents[fsize] = 0;
+        *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+        if (*lines == NULL) {
+            zpl_free(alloc, contents);
+            contents = NULL;
+        }
+    }
     zpl_file_close(&f);
 
     return contents;
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 638ca34..e9af860 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -288,26 +288,39 @@ zpl_file_error zpl_path_rmdir(char const *path) {
     return ZPL_FILE_ERROR_UNKNOWN;
 }
 
-void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
+zpl_internal zpl_b32 zpl__file_direntry_append(zpl_string *str, char const *text) {
+    zpl_string result = zpl_string_appendc(*str, text);
+    if (result == NULL) return false;
+    *str = result;
+    return true;
+}
+
+zpl_internal zpl_string zpl__file_direntry_path(zpl_allocator alloc, char const *dirname, char const *separator, char const *name) {
+    zpl_string path = zpl_string_make(alloc, dirname);
+    if (path && (!zpl__file_direntry_append(&path, separator) || !zpl__file_direntry_append(&path, name))) {
+        zpl_string_free(path);
+        path = NULL;
+    }
+    return path;
+}
+
+// NOTE: Fails only when the allocator refuses memory
+zpl_b32 zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
+    zpl_b32 ok = true;
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
     DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
-        while ((dir = readdir(d))) {
-            if (dir == 0) break;
+        while (ok && (dir = readdir(d))) {
             if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
-            zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
-
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
+            zpl_string dirpath = zpl__file_direntry_path(alloc, dirname, "/", dir->d_name);
+            ok = dirpath && zpl__file_direntry_append(output, dirpath) && zpl__file_direntry_append(output, "\n");
 
-            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (ok && recurse && dir->d_type == DT_DIR) { ok = zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
         closedir(d);
@@ -329,9 +342,8 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
     if (directory[length - 1] == '\\') { directory[length - 1] = '\0'; }
 
     // attach search pattern
-    zpl_string findpath = zpl_string_make(alloc, directory);
-    findpath = zpl_string_appendc(findpath, "\\");
-    findpath = zpl_string_appendc(findpath, "*");
+    zpl_string findpath = zpl__file_direntry_path(alloc, directory, "\\", "*");
+    if (findpath == NULL) return false;
 
     findhandle = _wfindfirst((const wchar_t *)zpl_utf8_to_ucs2_buf((const zpl_u8 *)findpath), &data);
     zpl_string_free(findpath);
@@ -342,28 +354,30 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             if (!zpl_strncmp(filename, "..", 2)) continue;
             if (filename[0] == '.' && filename[1] == 0) continue;
 
-            zpl_string dirpath = zpl_string_make(alloc, directory);
-            dirpath = zpl_string_appendc(dirpath, "\\");
-            dirpath = zpl_string_appendc(dirpath, filename);
-            DWORD attrs = GetFileAttributesW((const wchar_t *)zpl_utf8_to_ucs2_buf((const zpl_u8 *)dirpath));
+            zpl_string dirpath = zpl__file_direntry_path(alloc, directory, "\\", filename);
+            ok = dirpath && zpl__file_direntry_append(output, dirpath) && zpl__file_direntry_append(output, "\n");
 
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
-
-            if (recurse && (data.attrib & _A_SUBDIR) && !(attrs & FILE_ATTRIBUTE_REPARSE_POINT)) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (ok && recurse && (data.attrib & _A_SUBDIR)) {
+                DWORD attrs = GetFileAttributesW((const wchar_t *)zpl_utf8_to_ucs2_buf((const zpl_u8 *)dirpath));
+                if (!(attrs & FILE_ATTRIBUTE_REPARSE_POINT)) { ok = zpl__file_direntry(alloc, dirpath, output, recurse); }
+            }
 
             zpl_string_free(dirpath);
-        } while (_wfindnext(findhandle, &data) != -1);
+        } while (ok && _wfindnext(findhandle, &data) != -1);
         _findclose(findhandle);
     }
 #else
     // TODO: Implement other OSes
 #endif
+    return ok;
 }
 
 zpl_string zpl_path_dirlist(zpl_allocator alloc, char const *dirname, zpl_b32 recurse) {
     zpl_string buf = zpl_string_make_reserve(alloc, 4);
-    zpl__file_direntry(alloc, dirname, &buf, recurse);
+    if (buf && !zpl__file_direntry(alloc, dirname, &buf, recurse)) {
+        zpl_string_free(buf);
+        buf = NULL;
+    }
     return buf;
 }
 
@@ -373,22 +387,28 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
     zpl_dir_info dir_ = {0};
     *dir = dir_;
     dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
-    zpl_strcpy((char *)dir->fullpath, path);
-
-
     zpl_string dirlist = zpl_path_dirlist(zpl_heap(), path, false);
-    char **files=zpl_str_split_lines(zpl_heap(), dirlist, false);
+    char **files = dirlist ? zpl_str_split_lines(zpl_heap(), dirlist, false) : NULL;
     dir->filenames = files;
     dir->buf = dirlist;
 
-    zpl_array_init(dir->entries, zpl_heap());
+    if (!dir->fullpath || !files || !zpl_array_init(dir->entries, zpl_heap())) {
+        zpl_dirinfo_free(dir);
+        *dir = dir_;
+        return;
+    }
+    zpl_strcpy((char *)dir->fullpath, path);
 
     for (zpl_i32 i=0; i<zpl_array_count(files); ++i) {
         zpl_dir_entry entry = {0};
         entry.filename = files[i];
         entry.type = zpl_fs_get_type(entry.filename);
 
-        zpl_array_append(dir->entries, entry);
+        if (!zpl_array_append(dir->entries, entry)) {
+            zpl_dirinfo_free(dir);
+            *dir = dir_;
+            return;
+        }
     }
 }
 
@@ -403,14 +423,16 @@ zpl_internal void zpl__dirinfo_free_entry(zpl_dir_entry *entry) {
 void zpl_dirinfo_free(zpl_dir_info *dir) {
     ZPL_ASSERT_NOT_NULL(dir);
 
-    for (zpl_isize i = 0; i < zpl_array_count(dir->entries); ++i) {
-        zpl__dirinfo_free_entry(dir->entries + i);
+    if (dir->entries) {
+        for (zpl_isize i = 0; i < zpl_array_count(dir->entries); ++i) {
+            zpl__dirinfo_free_entry(dir->entries + i);
+        }
+        zpl_array_free(dir->entries);
     }
 
-    zpl_array_free(dir->entries);
-    zpl_array_free(dir->filenames);
+    if (dir->filenames) zpl_array_free(dir->filenames);
     zpl_string_free(dir->buf);
-    zpl_mfree((void *)dir->fullpath);
+    if (dir->fullpath) zpl_mfree((void *)dir->fullpath);
 }
 
 
@@ -447,6 +469,7 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     }
 
     entry->dir_info = (zpl_dir_info *)zpl_malloc(sizeof(zpl_dir_info));
+    if (entry->dir_info == NULL) return;
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
@@ -458,6 +481,7 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
         zpl_isize len = slash ? zpl_max(slash-path, 1) : 1; // NOTE: the root or the working directory have a single character
         parent = (char *)zpl_malloc(len + 1);
+        if (parent == NULL) return;
         zpl_memcopy(parent, slash ? path : ".", len);
         parent[len] = 0;
         path = parent;
@@ -478,6 +502,7 @@ void zpl_file_dirinfo_refresh(zpl_file *file) {
     }
 
     file->dir = (zpl_dir_entry *)zpl_malloc(sizeof(zpl_dir_entry));
+    if (file->dir == NULL) return;
     zpl_dir_entry dir_ = {0};
     *file->dir = dir_;
     file->dir->filename = file->filename;
diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 7a4f4c0..eef407e 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -127,7 +127,11 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
-    char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+    char const **files = filelst ? cast(char const**)zpl_str_split_lines(alloc, filelst, false) : NULL;
+    if (!files) {
+        zpl_string_free(filelst);
+        return -(ZPL_TAR_ERROR_IO_ERROR);
+    }
     zpl_isize count = 0;
     for (zpl_isize i = 0; i < zpl_array_count(files); i++) {
         if (zpl_fs_get_type(files[i]) != ZPL_DIR_TYPE_FOLDER) files[count++] = files[i];
diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 656cfce..fdb19e6 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -21,6 +21,7 @@ const char *zpl_get_env(const char *name) {
 
     zpl_isize ptr_size = zpl_strlen(ptr);
     buffer = (char *)zpl_malloc(ptr_size * sizeof(char)+1);
+    if (buffer == NULL) return NULL;
     zpl_memcopy((char *)buffer, ptr, ptr_size+1);
     return buffer;
 }
-- 
2.43.0


From 7097b891cfe1ec76f1b0fbfcc011c187bc0dd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 80/96] fix: writing CSV and URI text reported success with
 part of the document when memory was refused

---
 code/header/parsers/csv.h |  8 +++----
 code/header/parsers/uri.h |  2 +-
 code/source/parsers/csv.c | 48 +++++++++++++++++++++++++--------------
 code/source/parsers/uri.c | 42 ++++++++++++++++++++++------------
 4 files changed, 63 insertions(+), 37 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index bd29059..2c7a777 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -16,9 +16,9 @@ ZPL_DEF_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloca
 ZPL_DEF zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim);
 ZPL_DEF void zpl_csv_free(zpl_csv_object *obj);
 
-ZPL_DEF_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
+ZPL_DEF_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
 ZPL_DEF_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj);
-ZPL_DEF void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
+ZPL_DEF zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
 ZPL_DEF zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delim);
 
 /* inline */
@@ -27,8 +27,8 @@ ZPL_IMPL_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloc
     return zpl_csv_parse_delimiter(root, text, allocator, has_header, ',');
 }
 
-ZPL_IMPL_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
-    zpl_csv_write_delimiter(file, obj, ',');
+ZPL_IMPL_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
+    return zpl_csv_write_delimiter(file, obj, ',');
 }
 
 ZPL_IMPL_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj) {
diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index f490d1c..95d8aad 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -12,7 +12,7 @@ typedef enum zpl_uri_error {
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
 ZPL_DEF zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a);
-ZPL_DEF void zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
+ZPL_DEF zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
 ZPL_DEF zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj);
 ZPL_DEF void zpl_uri_free(zpl_adt_node *obj);
 
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index ceaeb21..82520c9 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -151,20 +151,25 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+#define zpl__csv_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
+} while (0)
+
+zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
+                    zpl__csv_fprintf(file, "\"");
+                    if (zpl_adt_print_string(file, node, "\"", "\"") != ZPL_ADT_ERROR_NONE) return false;
+                    zpl__csv_fprintf(file, "\"");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    zpl_fprintf(file, "%s", node->string);
+                    zpl__csv_fprintf(file, "%s", node->string);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
@@ -173,56 +178,63 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
 
         case ZPL_ADT_TYPE_REAL:
         case ZPL_ADT_TYPE_INTEGER: {
-            zpl_adt_print_number(file, node);
+            if (zpl_adt_print_number(file, node) != ZPL_ADT_ERROR_NONE) return false;
         } break;
     }
+
+    return true;
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    return zpl__csv_write_record(file, &temp);
 }
 
-void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
+zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->nodes);
     zpl_isize cols = zpl_array_count(obj->nodes);
-    if (cols == 0) return;
+    if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
+            if (!zpl__csv_write_header(file, &obj->nodes[i])) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
             if (r < zpl_array_count(obj->nodes[i].nodes)) {
-                zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+                if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r])) return false;
             }
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
+
+    return true;
 }
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    zpl_csv_write_delimiter(&tmp, obj, delimiter);
+    if (!zpl_csv_write_delimiter(&tmp, obj, delimiter)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -230,4 +242,6 @@ zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj,
     return output;
 }
 
+#undef zpl__csv_fprintf
+
 ZPL_END_C_DECLS
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 829b872..d491542 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -110,11 +110,16 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     return err_code;
 }
 
-zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
+#define zpl__uri_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
+} while (0)
+
+zpl_b8 zpl__uri_print_str(zpl_file *file, const char *text) {
     ZPL_ASSERT_NOT_NULL(file);
     
     if (!text) {
-        return ZPL_ADT_ERROR_NONE;
+        return true;
     }
     
     const char *p = text;
@@ -124,19 +129,19 @@ zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     while (*p) {
         ch = (zpl_u8) *p++;
         if (ch == ' ') {
-            zpl_fprintf(file, "%s", "+");
+            zpl__uri_fprintf(file, "%s", "+");
         } else if (zpl_char_is_alphanumeric(ch) || zpl_strchr("-_.~", ch)) {
-            zpl_fprintf(file, "%c", ch);
+            zpl__uri_fprintf(file, "%c", ch);
         } else {
             zpl_snprintf(buf, zpl_size_of(buf), "%02X", ch);
-            zpl_fprintf(file, "%c%s", '%', buf);
+            zpl__uri_fprintf(file, "%c%s", '%', buf);
         }
     }
     
-    return ZPL_ADT_ERROR_NONE;
+    return true;
 }
 
-void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
+zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     ZPL_ASSERT_NOT_NULL(f);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
@@ -150,7 +155,7 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
             origin = NULL;
         }
         if (origin) {
-            zpl_fprintf(f, "%s", origin->string);
+            zpl__uri_fprintf(f, "%s", origin->string);
         }
     }
     
@@ -161,24 +166,28 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
-        zpl_fprintf(f, "%s", has_params ? "&" : "?");
+        zpl__uri_fprintf(f, "%s", has_params ? "&" : "?");
         has_params = true;
         
-        zpl__uri_print_str(f, n->name);
+        if (!zpl__uri_print_str(f, n->name)) return false;
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
-            zpl_fprintf(f, "%c", '=');
-            zpl__uri_print_str(f, n->string);
+            zpl__uri_fprintf(f, "%c", '=');
+            if (!zpl__uri_print_str(f, n->string)) return false;
         } else if (n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL) {
            if (n->props != ZPL_ADT_PROPS_TRUE) {
-                zpl_fprintf(f, "%c", '=');
+                zpl__uri_fprintf(f, "%c", '=');
                 // TODO: ensure the output is URI-encoded
-                zpl_adt_print_number(f, n);
+                if (zpl_adt_print_number(f, n) != ZPL_ADT_ERROR_NONE) return false;
            } 
         }
     }
+
+    return true;
 }
 
+#undef zpl__uri_fprintf
+
 void zpl_uri_free(zpl_adt_node *obj) {
     zpl_adt_destroy_branch(obj);
 }
@@ -187,7 +196,10 @@ zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    zpl_uri_write(&tmp, obj);
+    if (!zpl_uri_write(&tmp, obj)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 05233011bd2b1f44390ed473c405f13f5c31ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 81/96] fix: a job system whose workers got no memory crashed

---
 code/source/jobs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index f2f04e1..8701cb4 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -63,6 +63,11 @@ void zpl_jobs_init_with_limit(zpl_jobs_system *pool, zpl_allocator a, zpl_u32 ma
     pool->counter = 0;
 
     zpl_buffer_init(pool->workers, a, max_threads);
+    if (pool->workers == NULL) {
+        // NOTE: There is nobody to do the jobs, so accept none
+        pool->max_threads = max_threads = 0;
+        pool->max_jobs = max_jobs = 0;
+    }
 
     for (zpl_usize i = 0; i < ZPL_JOBS_MAX_PRIORITIES; ++i) {
         zpl_thread_queue *q = &pool->queues[i];
-- 
2.43.0


From fa0525cc40cc753e62ab9845411d886eb19baf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 82/96] fix: zpl_file_connect_handle was declared on every
 platform but only defined on Windows

---
 code/source/core/file.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 7c430a9..855f413 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -313,6 +313,19 @@ zpl_b32 zpl_file_has_changed(zpl_file *f) {
     return result;
 }
 
+void zpl_file_connect_handle(zpl_file *file, void *handle) {
+    ZPL_ASSERT_NOT_NULL(file);
+    ZPL_ASSERT_NOT_NULL(handle);
+
+    if (file->is_temp)
+        return;
+
+    zpl_zero_item(file);
+
+    file->fd.p = handle;
+    file->ops = zpl_default_file_operations;
+}
+
 // TODO: Is this a bad idea?
 zpl_global zpl_b32 zpl__std_file_set = false;
 zpl_global zpl_file zpl__std_files[ZPL_FILE_STANDARD_COUNT] = { { 0 } };
@@ -333,19 +346,6 @@ zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
     return &zpl__std_files[std];
 }
 
-void zpl_file_connect_handle(zpl_file *file, void *handle) {
-    ZPL_ASSERT_NOT_NULL(file);
-    ZPL_ASSERT_NOT_NULL(handle);
-
-    if (file->is_temp)
-        return;
-
-    zpl_zero_item(file);
-
-    file->fd.p = handle;
-    file->ops = zpl_default_file_operations;
-}
-
 zpl_file_error zpl_file_truncate(zpl_file *f, zpl_i64 size) {
     zpl_file_error err = ZPL_FILE_ERROR_NONE;
     zpl_i64 prev_offset = zpl_file_tell(f);
-- 
2.43.0


From 4ed1539eb5c5da3aa74d8bc6bd27674ab9df34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 83/96] fix: printing did not compile as strict C++98, where
 va_copy is not declared (since 4796232e)

---
 code/source/core/print.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 7a97fea..8c67291 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -3,6 +3,10 @@
 
 ZPL_BEGIN_C_DECLS
 
+#ifndef va_copy /* strict C++98 */
+#    define va_copy(dst, src) __va_copy(dst, src)
+#endif
+
 zpl_internal zpl_isize zpl__vformat(char *text, zpl_isize max_len, char const *fmt, va_list va);
 
 zpl_isize zpl_printf_va(char const *fmt, va_list va) {
-- 
2.43.0


From 1035446b2459dedfb3ebf1d0abe41b3304abcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:00 +0000
Subject: [PATCH 84/96] fix: zpl_string_appendc and zpl_string_join were
 missing when the implementation is compiled as C++ and used from another unit

---
 code/source/core/stringlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 3f6525f..df646f5 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -78,11 +78,11 @@ zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize
     return str;
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *other) {
+zpl_string zpl_string_appendc(zpl_string str, const char *other) {
     return zpl_string_append_length(str, other, zpl_strlen(other));
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
+zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
     zpl_string ret, next;
     zpl_isize i;
 
-- 
2.43.0


From c7a4b98238b5e6a86d63f5ead4109861c67a9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:42 +0000
Subject: [PATCH 85/96] fix: zpl_zero_array with an expression as count cleared
 the wrong number of bytes

---
 code/header/essentials/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 654777b..8fd9ff5 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -55,7 +55,7 @@ ZPL_DEF_INLINE void zpl_zero_size(void *ptr, zpl_isize size);
 #define zpl_zero_item(t) zpl_zero_size((t), zpl_size_of(*(t))) // NOTE: Pass pointer of struct
 
 //! Clears up an array.
-#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * count)
+#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * (count))
 #endif
 
 //! Copy memory from source to destination.
-- 
2.43.0


From 564bf774aea68a81150cdb821566149864b4bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:31 +0000
Subject: [PATCH 86/96] fix: array macros given expressions:
 zpl_array_remove_at(a, i - 1) moved two elements too few, zpl_array_back(*p)
 and zpl_array_fill(*p, ...) reached outside the array, zpl_array_fill with
 bounds held in a variable named i filled nothing defined

---
 code/header/essentials/collections/array.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index e564281..1c00b34 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -85,7 +85,7 @@ ZPL_STATIC_ASSERT(ZPL_ARRAY_GROW_FORMULA(0) > 0, "ZPL_ARRAY_GROW_FORMULA(0) <= 0
 #define zpl_array_elem_size(x) (ZPL_ARRAY_HEADER(x)->elem_size)
 #define zpl_array_count(x)     (ZPL_ARRAY_HEADER(x)->count)
 #define zpl_array_capacity(x)  (ZPL_ARRAY_HEADER(x)->capacity)
-#define zpl_array_end(x)       (x + (zpl_array_count(x) - 1))
+#define zpl_array_end(x)       ((x) + (zpl_array_count(x) - 1))
 
 // NOTE: Tells whether the storage for that many elements can be described by a size at all
 ZPL_IMPL_INLINE zpl_b8 zpl__array_is_valid_capacity(zpl_isize elem_size, zpl_isize cap) {
@@ -199,14 +199,14 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv_at(void **x, void *items, zpl_isize it
 do {                                                                                                               \
     ZPL_ASSERT((begin) >= 0 && (end) <= zpl_array_count(x));                                               \
     ZPL_ASSERT(zpl_size_of(value) == zpl_size_of((x)[0]));                                                    \
-    for (zpl_isize i = (begin); i < (end); i++) { x[i] = value; }                                                  \
+    for (zpl_isize zpl__i = (begin); zpl__i < (end); zpl__i++) { (x)[zpl__i] = (value); }                                                  \
 } while (0)
 
 #define zpl_array_remove_at(x, index)                                                                                  \
 do {                                                                                                               \
     zpl_array_header *zpl__ah = ZPL_ARRAY_HEADER(x);                                                               \
-    ZPL_ASSERT(index < zpl__ah->count);                                                                            \
-    zpl_memmove(x + index, x + index + 1, zpl_size_of(x[0]) * (zpl__ah->count - index - 1));                           \
+    ZPL_ASSERT((index) < zpl__ah->count);                                                                              \
+    zpl_memmove((x) + (index), (x) + (index) + 1, zpl_size_of((x)[0]) * (zpl__ah->count - (index) - 1));               \
     --zpl__ah->count;                                                                                              \
 } while (0)
 
@@ -225,8 +225,8 @@ do {
     ZPL_ASSERT(ZPL_ARRAY_HEADER(x)->count > 0);                                                                    \
     ZPL_ARRAY_HEADER(x)->count--;                                                                                  \
 } while (0)
-#define zpl_array_back(x) x[ZPL_ARRAY_HEADER(x)->count - 1]
-#define zpl_array_front(x) x[0]
+#define zpl_array_back(x) ((x)[ZPL_ARRAY_HEADER(x)->count - 1])
+#define zpl_array_front(x) ((x)[0])
 #define zpl_array_clear(x)                                                                                             \
 do { ZPL_ARRAY_HEADER(x)->count = 0; } while (0)
 
-- 
2.43.0


From a259d151db71383c3ffcc606fa4a49caa783c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 87/96] fix: zpl_swap(T, a, b) of a variable named tmp
 exchanged nothing

---
 code/header/essentials/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/essentials/helpers.h b/code/header/essentials/helpers.h
index 459c7be..abb7768 100644
--- a/code/header/essentials/helpers.h
+++ b/code/header/essentials/helpers.h
@@ -53,9 +53,9 @@ member)
 #ifndef zpl_swap
 #    define zpl_swap(Type, a, b) \
 do {                         \
-Type tmp = (a);          \
+Type zpl__tmp = (a);     \
 (a) = (b);               \
-(b) = tmp;               \
+(b) = zpl__tmp;          \
 } while (0)
 #endif
 
-- 
2.43.0


From 94aec14bb6e566f5237532fd3af99df8dab66638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 88/96] fix: zpl_sign0 of a conditional expression answered
 with the expression's branch instead of its sign

---
 code/header/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/math.h b/code/header/math.h
index d75bc99..63bd216 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -167,7 +167,7 @@ typedef short zpl_half;
 #endif
 
 #ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#define zpl_sign0(x) ((x) == 0.0f ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
 #endif
 
 ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-- 
2.43.0


From dbb9127204e34ec34a227d24d3b46e4d070d7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:08 +0000
Subject: [PATCH 89/96] fix: the usage line of the help lists positionals in
 the reverse order of their declaration, not in the order they are filled in

---
 code/header/opts.h |  2 +-
 code/source/opts.c | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/code/header/opts.h b/code/header/opts.h
index cb04f7a..c871887 100644
--- a/code/header/opts.h
+++ b/code/header/opts.h
@@ -22,7 +22,7 @@ typedef enum {
 typedef struct {
     char const *name, *lname, *desc;
     zpl_u8 type;
-    zpl_b32 met, pos;
+    zpl_b32 met, pos; ///< pos: place among the positionals, from 1, or 0
 
     //! values
     union {
diff --git a/code/source/opts.c b/code/source/opts.c
index 37e1964..5312a81 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -68,11 +68,19 @@ zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len,
     return NULL;
 }
 
+zpl_internal zpl_isize zpl__opts_positionals(zpl_opts *opts) {
+    zpl_isize count = 0;
+
+    for (zpl_isize i = 0; i < zpl_array_count(opts->entries); ++i) { count += opts->entries[i].pos != 0; }
+
+    return count;
+}
+
 void zpl_opts_positional_add(zpl_opts *opts, char const *name) {
     zpl_opts_entry *e = zpl__opts_find(opts, name, zpl_strlen(name), true);
 
     if (e) {
-        e->pos = true;
+        if (!e->pos) e->pos = (zpl_b32)(zpl__opts_positionals(opts) + 1);
         zpl_array_append_at(opts->positioned, e, 0);
     }
 }
@@ -137,10 +145,12 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
-        zpl_opts_entry *e = opts->entries + i;
+    for (zpl_isize pos = 1; pos <= zpl__opts_positionals(opts); ++pos) {
+        for (zpl_isize i = 0; i < zpl_array_count(opts->entries); ++i) {
+            zpl_opts_entry *e = opts->entries + i;
 
-        if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
+            if (e->pos == (zpl_b32) pos) { zpl_printf(" [%s]", e->lname); }
+        }
     }
 
     zpl_printf("\nOPTIONS:\n");
-- 
2.43.0


From 3762276b636d1ca9ee8b0928572ef778b38f62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:45 +0000
Subject: [PATCH 90/96] fix: zpl_file_new left is_temp of the file it
 constructs unset, so that its changes and its directory were ignored at
 random

---
 code/source/core/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 855f413..b2a156b 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -234,6 +234,7 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
 
     f->ops = ops;
     f->fd = fd;
+    f->is_temp = false;
     f->dir = NULL;
     f->last_write_time = 0;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
-- 
2.43.0


From ec5f94f3ef0dacfc565848759cb0e5e2e5a9eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 91/96] fix: an archive unpacked into the working directory (an
 empty path) writes entries with absolute names to where they say, outside it

---
 code/source/core/file_tar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index eef407e..c826222 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -236,6 +236,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
+    if (!*base_path) base_path = cast(char*)"."; /* the working directory, not the root */
     zpl_isize base_len = zpl_strlen(base_path);
     zpl_isize len = zpl_strlen(file->path);
     if (base_len + len + 2 > ZPL_MAX_PATH)
-- 
2.43.0


From 2d2bd80a9230fb47eb7b821faf9162e60bd29b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 92/96] fix: zpl_string_append_fmt dropped a text of 65535
 characters or more without a sign of it

---
 code/source/core/stringlib.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index df646f5..8713248 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -199,11 +199,19 @@ zpl_string zpl_string_append_rune(zpl_string str, zpl_rune r) {
 zpl_string zpl_string_append_fmt(zpl_string str, const char *fmt, ...) {
     zpl_isize res;
     char buf[ZPL_PRINTF_MAXLEN] = { 0 };
+    char *text = buf;
     va_list va;
     va_start(va, fmt);
-    res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va) - 1;
+    res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va);
     va_end(va);
-    return zpl_string_append_length(str, buf, res);
+    if (res < 0) {
+        va_start(va, fmt);
+        res = zpl_asprintf_va(zpl_heap_allocator(), &text, fmt, va);
+        va_end(va);
+    }
+    str = res < 0 ? NULL : zpl_string_append_length(str, text, res - 1);
+    if (text != buf) zpl_mfree(text);
+    return str;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 21445b21e7308e7e1642b5f7edc4cfe221d619e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:03 +0000
Subject: [PATCH 93/96] fix: zpl_adt_append and zpl_adt_set given a zpl_f32
 stored its truncated integer part as an integer

---
 code/header/adt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/adt.h b/code/header/adt.h
index 9f6f3a3..ba60ad4 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -379,11 +379,13 @@ ZPL_DEF zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, c
 #define zpl_adt_append(parent, name, value) _Generic((value), \
                                                               char*: zpl_adt_append_str, \
                                                               char const*: zpl_adt_append_str, \
+                                                              zpl_f32: zpl_adt_append_flt, \
                                                               zpl_f64: zpl_adt_append_flt, \
                                                               default: zpl_adt_append_int)(parent, name, value)
 #define zpl_adt_set(obj, name, value) _Generic((value), \
                                                               char*: zpl_adt_set_str, \
                                                               char const*: zpl_adt_set_str, \
+                                                              zpl_f32: zpl_adt_set_flt, \
                                                               zpl_f64: zpl_adt_set_flt, \
                                                               default: zpl_adt_set_int)(obj, name, value)
 #endif
-- 
2.43.0


From a394fbe6f2a118d53715f6a4b5cb5a477e25ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:09 +0000
Subject: [PATCH 94/96] fix: zpl_adt_query cut a step of 65536 characters or
 more and then found another node or none

---
 code/source/adt.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 53505b8..c5a8f4f 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -111,6 +111,18 @@ zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, ch
     return NULL;
 }
 
+/* the name doesn't need to be terminated */
+zpl_internal zpl_adt_node *zpl__adt_find_name(zpl_adt_node *node, char const *name, zpl_isize name_len) {
+    for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+        char const *n = node->nodes[i].name;
+        if (n && !zpl_strncmp(n, name, name_len) && n[name_len] == 0) {
+            return (node->nodes + i);
+        }
+    }
+
+    return NULL;
+}
+
 zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     ZPL_ASSERT_NOT_NULL(uri);
 
@@ -135,10 +147,14 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
 
     b = p;
     p = e = (char*)zpl_str_skip(p, '/');
-    char *buf = zpl_bprintf("%.*s", (int)(e - b), b);
 
     /* handle field value lookup */
     if (*b == '[') {
+        if ((e - b) >= ZPL_PRINTF_MAXLEN) {
+            return NULL; /* too long for a field value lookup */
+        }
+
+        char *buf = zpl_bprintf("%.*s", (int)(e - b), b);
         char *l_p=buf+1,*l_b=l_p,*l_e=l_p,*l_b2=l_p,*l_e2=l_p;
         l_e = (char*)zpl_str_skip(l_p, '=');
         l_e2 = (char*)zpl_str_skip(l_p, ']');
@@ -192,7 +208,7 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle field name lookup */
     else if (node->type == ZPL_ADT_TYPE_OBJECT) {
-        found_node = zpl_adt_find(node, buf, false);
+        found_node = zpl__adt_find_name(node, b, e - b);
 
         /* go deeper if uri continues */
         if (*e) {
@@ -201,9 +217,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        char *idx_end = buf;
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &idx_end, 10);
-        if (zpl_char_is_digit(*buf) && *idx_end == 0 && idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = b;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(b, &idx_end, 10);
+        if (zpl_char_is_digit(*b) && idx_end == e && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From 1eef6ee096992ef0ee8e1e41589ecf3131ad9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:18 +0000
Subject: [PATCH 95/96] fix: buffer macros given expressions or a buffer named
 nx: zpl_buffer_init left nx unset, zpl_buffer_end and the assertion of
 zpl_buffer_appendv took the wrong operand

---
 code/header/essentials/collections/buffer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index e56ddc1..2a3c1b8 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -32,21 +32,21 @@ typedef struct zpl_buffer_header {
 #define ZPL_BUFFER_HEADER(x)   (cast(zpl_buffer_header *)(x) - 1)
 #define zpl_buffer_count(x)    (ZPL_BUFFER_HEADER(x)->count)
 #define zpl_buffer_capacity(x) (ZPL_BUFFER_HEADER(x)->capacity)
-#define zpl_buffer_end(x) (x + (zpl_buffer_count(x) - 1))
+#define zpl_buffer_end(x) ((x) + (zpl_buffer_count(x) - 1))
 #define zpl_buffer_allocator(x) (ZPL_BUFFER_HEADER(x)->backing)
 
 #define zpl_buffer_init(x, allocator, cap)                                                                             \
 do {                                                                                                               \
-    void **nx = cast(void **) & (x);                                                                               \
+    void **zpl__bx = cast(void **) & (x);                                                                          \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
     if (zpl__bh) {                                                                                                 \
         zpl__bh->backing = allocator;                                                                              \
         zpl__bh->count = 0;                                                                                        \
         zpl__bh->capacity = cap;                                                                                   \
-        *nx = cast(void *)(zpl__bh + 1);                                                                           \
+        *zpl__bx = cast(void *)(zpl__bh + 1);                                                                      \
     } else {                                                                                                       \
-        *nx = NULL;                                                                                                \
+        *zpl__bx = NULL;                                                                                           \
     }                                                                                                              \
 } while (0)
 
@@ -58,7 +58,7 @@ do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
 #define zpl_buffer_appendv(x, items, item_count)                                                                       \
 do {                                                                                                               \
     ZPL_ASSERT(zpl_size_of(*(items)) == zpl_size_of(*(x)));                                                        \
-    ZPL_ASSERT(zpl_buffer_count(x) + item_count <= zpl_buffer_capacity(x));                                        \
+    ZPL_ASSERT(zpl_buffer_count(x) + (item_count) <= zpl_buffer_capacity(x));                                      \
     zpl_memcopy(&(x)[zpl_buffer_count(x)], (items), zpl_size_of(*(x)) * (item_count));                             \
     zpl_buffer_count(x) += (item_count);                                                                           \
 } while (0)
@@ -67,7 +67,7 @@ do {
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
     if (y) {                                                                                                       \
-        zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                               \
+        zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*(x)));                                             \
         zpl_buffer_count(y) = zpl_buffer_count(x);                                                                 \
     }                                                                                                              \
 } while (0)
-- 
2.43.0


From 3e0d8225e217e3520644c113e4a56f1cd19ebd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:27 +0000
Subject: [PATCH 96/96] fix: every temporary file left its stream behind in
 memory when it was closed

---
 code/source/core/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index b2a156b..6c15b21 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -426,8 +426,13 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
-#else 
+#elif defined(ZPL_SYSTEM_WINDOWS)
     file->fd.i = fileno(fd);
+#else
+    // NOTE: closing the file closes the descriptor only, the stream must not outlive it
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) { return ZPL_FILE_ERROR_INVALID; }
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0

