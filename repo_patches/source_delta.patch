From 38a09730194551e8702d7209e4e38410a030c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 001/137] fix: arena allocations no longer run past the arena
 when the fill level is not a multiple of the alignment

---
 code/source/essentials/memory_custom.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..2381d8c 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,7 +172,8 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            // NOTE: account for the padding in front of the block too, not only for the block itself
+            zpl_isize total_size = zpl_align_forward_i64(size, alignment) + zpl_arena_alignment_of(arena, alignment);
 
             // NOTE: Out of memory
             if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
-- 
2.43.0


From 068c61128d957807694684d2c4b9d78f04eb8536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 002/137] fix: pool blocks with sizes that are no multiple of
 the alignment are aligned and hold their free list link

---
 code/source/essentials/memory_custom.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 2381d8c..89f9fae 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -217,7 +217,8 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    // NOTE: every block holds a free list link and starts at a multiple of the alignment
+    actual_block_size = zpl_align_forward_i64(zpl_max(block_size, zpl_size_of(zpl_uintptr)) + block_align, block_align);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
@@ -272,7 +273,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl_align_forward_i64(zpl_max(pool->block_size, zpl_size_of(zpl_uintptr)) + pool->block_align, pool->block_align);
             pool->total_size = 0;
 
             // NOTE: Init intrusive freelist
-- 
2.43.0


From b7b5972878c69576bd8a1b224d6dbf8d0158877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 003/137] fix: stack allocator tracks its size when it grows
 and aligns the blocks it returns

---
 code/header/essentials/memory_custom.h |  2 ++
 code/source/essentials/memory_custom.c | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..a46e295 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 89f9fae..8e596cc 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -407,17 +407,19 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
             size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: align the block itself, its header lies right in front of it
+            void *curr = zpl_pointer_sub(
+                zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment), ZPL_STACK_ALLOC_OFFSET);
 
             if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    zpl_isize new_total_size = s->total_size + size + alignment;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_total_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    curr = zpl_pointer_sub(
+                        zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment), ZPL_STACK_ALLOC_OFFSET);
+                    s->total_size = new_total_size;
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
-- 
2.43.0


From 68c27ebab2b0de22f653d82542456615815d7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 004/137] fix: scratch allocator keeps headers and data inside
 free space and reclaims freed blocks in order

---
 code/source/essentials/memory_custom.c | 52 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8e596cc..3017908 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -304,10 +304,13 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
-    s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    // NOTE: block headers are kept aligned
+    void *aligned_start = zpl_align_forward(start, zpl_size_of(zpl_allocation_header_ev));
+    size = zpl_max(size - zpl_pointer_diff(start, aligned_start), 0);
+    s->physical_start = aligned_start;
+    s->total_size = size - size % zpl_size_of(zpl_allocation_header_ev);
+    s->alloc_point = aligned_start;
+    s->free_point = aligned_start;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -330,29 +333,34 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *pt = s->alloc_point;
-            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
-            void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            zpl_allocation_header_ev *header, *tail = NULL;
+            void *data, *pt, *end = zpl_pointer_add(s->physical_start, s->total_size);
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
+            size = zpl_align_forward_i64(zpl_max(size, 1), zpl_size_of(zpl_allocation_header_ev));
+
+            // NOTE: Nothing is in use, start over
+            if (s->free_point == s->alloc_point) s->free_point = s->alloc_point = s->physical_start;
+
+            header = cast(zpl_allocation_header_ev *) s->alloc_point;
+            data = zpl_align_forward(header + 1, alignment);
+            pt = zpl_pointer_add(data, size);
 
             // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
+            if (pt > end && s->alloc_point >= s->free_point) {
+                if (s->alloc_point < end) tail = header;
+                header = cast(zpl_allocation_header_ev *) s->physical_start;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
+                pt = zpl_pointer_add(data, size);
+                if (pt >= s->free_point) break;
+            } else if (pt > end || (s->alloc_point < s->free_point && pt >= s->free_point)) {
+                break;
             }
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
-                s->alloc_point = cast(zpl_u8 *) pt;
-                ptr = data;
-            }
+            if (tail) tail->size = zpl_pointer_diff(tail, end) | ZPL_ISIZE_HIGH_BIT;
+            zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
+            s->alloc_point = pt;
+            ptr = data;
 
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
@@ -372,8 +380,8 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
+                        if (s->free_point == end && s->alloc_point != end) s->free_point = s->physical_start;
                     }
                 }
             }
-- 
2.43.0


From 1b6e3273f0904156e716789724ce044041e0d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 005/137] fix: heap analysis header keeps blocks aligned for
 every alignment

---
 code/source/essentials/memory_custom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 3017908..eeb7eac 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
+        zpl_isize alloc_info_remainder = track_size - alloc_info_size;
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
-- 
2.43.0


From 3b4bf0508c8e009492d54cf6c85a6adc2b9f07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 006/137] fix: ring get_array returns up to max_size elements

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..5645442 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 1e5b42deaf9eccd7624c68edd1057533330cea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 007/137] fix: list insertion and removal keep the following
 node's previous link right

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..d681a70 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        item->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 2c000d8ba2d1d22c838b4af0da94e690ad4528f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 008/137] fix: memswap of small sizes swaps every byte once

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..5afc408 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            for (; size > 0; size--, a++, b++) { zpl_swap(zpl_u8, *a, *b); }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From 35b25dc2a5d1808187865db57348b797ac1a1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 009/137] fix: formatted printing stays inside its buffer and
 lays out padded numbers like printf

---
 code/source/core/print.c | 184 ++++++++++++++++++---------------------
 1 file changed, 83 insertions(+), 101 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..09ab9c5 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -123,14 +123,13 @@ typedef struct {
 } zpl__format_info;
 
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
+    // NOTE: the last byte of the buffer is left for the terminator
+    zpl_isize res = 0, len = 0, padding = 0;
+    zpl_isize remaining = max_len - 1;
+    char pad = ' ';
     char *begin = text;
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
@@ -141,34 +140,30 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
+    if (info && info->width > len) padding = info->width - len;
 
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
-
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
+    if (info && !(info->flags & ZPL_FMT_MINUS)) {
+        if (padding > 0 && info->flags & ZPL_FMT_ZERO) {
+            pad = '0';
+            // NOTE: the sign goes in front of the padding
+            if (len > 0 && *str == '-' && remaining > 0) *text++ = *str++, len--, remaining--, res++;
         }
-
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+        while (padding > 0 && remaining > 0) *text++ = pad, padding--, remaining--, res++;
     }
 
+    len = zpl_min(len, zpl_max(remaining, 0));
+    zpl_memcopy(text, str, len);
+    text += len, remaining -= len, res += len;
+
+    while (padding > 0 && remaining > 0) *text++ = ' ', padding--, remaining--, res++;
+
     if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+        for (len = 0; len < res; len++) {
+            if (info->flags & ZPL_FMT_UPPER)
+                begin[len] = zpl_char_to_upper(begin[len]);
+            else if (info->flags & ZPL_FMT_LOWER)
+                begin[len] = zpl_char_to_lower(begin[len]);
+        }
     }
 
     return res;
@@ -182,101 +177,81 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
     zpl_isize res = 0;
-    zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
+    zpl_isize rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
+    rem = zpl_min(rem, zpl_max(max_len - 1, 0));
     res = rem;
     while (rem-- > 0) *text++ = arg;
 
     return res;
 }
 
+zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__format_info *info, char *num, zpl_isize num_size) {
+    zpl__format_info num_info;
+    zpl_isize sign, len, zeroes;
+    if (info == NULL || info->precision < 0) return zpl__print_string(text, max_len, info, num);
+
+    // NOTE: precision is the minimum number of digits
+    sign = *num == '-' ? 1 : 0;
+    len = zpl_strlen(num);
+    zeroes = zpl_min(info->precision - (len - sign), num_size - len - 1);
+    if (zeroes > 0) {
+        zpl_memmove(num + sign + zeroes, num + sign, len - sign + 1);
+        zpl_memset(num + sign, '0', zeroes);
+    }
+    num_info = *info;
+    num_info.precision = -1;
+    return zpl__print_string(text, max_len, &num_info, num);
+}
+
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
     char num[130];
     zpl_i64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    return zpl__print_number(text, max_len, info, num, zpl_size_of(num));
 }
 
 zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 value) {
     char num[130];
     zpl_u64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    return zpl__print_number(text, max_len, info, num, zpl_size_of(num));
 }
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
-
-    if (arg) {
-        zpl_u64 value;
-        if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
-            arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
-        }
-
-        value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
-
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-        arg -= value;
-
-        if (info->precision < 0) info->precision = 6;
-
-        if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-            while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
-            }
-        }
-    } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
-        if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-        }
+    char num[512];
+    zpl__format_info num_info = *info;
+    zpl_isize len = 0;
+    zpl_u64 value;
+    zpl_unused(is_hexadecimal);
+
+    if (arg < 0) {
+        num[len++] = '-';
+        arg = -arg;
+    } else if (arg > 0 && info->flags & ZPL_FMT_PLUS) {
+        num[len++] = '+';
     }
 
-    width = info->width - (text - text_begin);
-    if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
+    if (arg == 0) info->precision = 0; // NOTE: zero is always printed as 0
 
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
+    value = cast(zpl_u64) arg;
+    zpl_u64_to_str(value, num + len, 10);
+    len = zpl_strlen(num);
+    arg -= value;
 
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+    if (info->precision < 0) info->precision = 6;
 
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
+    if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
+        num[len++] = '.';
+        while (info->precision-- > 0 && len < zpl_size_of(num) - 1) {
+            arg *= 10;
+            value = cast(zpl_u64) arg;
+            num[len++] = cast(char)('0' + value);
+            arg -= value;
         }
     }
+    num[len] = '\0';
 
-    return (text - text_begin);
+    num_info.precision = -1;
+    return zpl__print_string(text, max_len, &num_info, num);
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
@@ -288,7 +263,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%') {
+            if (remaining > 1) *text++ = *fmt, remaining--;
+            fmt++;
+        }
 
         if (*fmt == '%') {
             do {
@@ -371,7 +349,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
@@ -448,7 +429,8 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             remaining -= len;
     }
 
-    *text++ = '\0';
+    if (max_len > 0) *text = '\0';
+    text++;
     res = (text - text_begin);
     return (res >= max_len || res < 0) ? -1 : res;
 }
-- 
2.43.0


From a9f759c73838dc122a13b6b83c643fb968cf94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 010/137] fix: string copies are always terminated inside their
 buffer

---
 code/header/core/string.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..bb6535a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -273,7 +275,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlcpy(char *dest, const char *source, zpl_isize
     if (source) {
         const char *source_start = source;
         char *str = dest;
-        while (len > 0 && *source) {
+        while (len > 1 && *source) {
             *str++ = *source++;
             len--;
         }
@@ -319,13 +321,12 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
     *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 1) {
         *output++ = *src++;
         len --;
     }
 
-    if (len > 0)
-        *output = 0;
+    *output = 0;
     return *src ? src + 1 : src;
 }
 
@@ -424,10 +425,10 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (dest == NULL) return NULL;
     zpl_strncpy(dest, src, max_len);
+    dest[max_len] = '\0';
 
     return dest;
 }
-- 
2.43.0


From 53f1bd0618ada8f94e8b31e8a49b2f001b13bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 011/137] fix: strncmp orders by the first differing bytes

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index bb6535a..ffc6033 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -304,7 +304,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return ((*(zpl_u8 *)s1 < *(zpl_u8 *)s2) ? -1 : +1);
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From e7a9d1786a85bb1b9e969354fea46dc3030d9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 012/137] fix: hexadecimal letters have values 10 to 15

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index ffc6033..1dfbcf0 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From 48045d43f77fc566fafc5251e232ca5d6cf81983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 013/137] fix: skip helpers honour escaped backslashes and stay
 inside the text

---
 code/header/core/string.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 1dfbcf0..d3a93a1 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -340,7 +340,11 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    char prev = '\0';
+    while (*str && (*str != c || (prev == '\\' && zpl_char_is_control(c)))) {
+        prev = (prev == '\\' && *str == '\\') ? '\0' : *str;
+        ++str;
+    }
 
     return str;
 }
@@ -399,11 +403,10 @@ ZPL_IMPL_INLINE char const *zpl_str_skip_any(char const *str, char const*char_li
 }
 
 ZPL_IMPL_INLINE char const *zpl_str_skip_literal(char const *str, char c) {
-    if (*str == '\0' || *str == c)
-        return str;
-    str++;
-
-    while ((*str && *str != c) || (*str == c && *(str-1) == '\\')) { ++str; }
+    while (*str && *str != c) {
+        if (*str == '\\' && *(str + 1)) ++str;
+        ++str;
+    }
     return str;
 }
 
-- 
2.43.0


From a4e137c7c78e60397b55ca4222ad5ea51c78c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 014/137] fix: line splitting keeps an unterminated last line
 and stays inside the text

---
 code/header/core/string.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d3a93a1..9c19d73 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -441,11 +441,15 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
     zpl_array_init(lines, alloc);
 
     while (*p) {
+        if (*pd == '\0') { // NOTE: last line without a line ending
+            zpl_array_append(lines, p);
+            break;
+        }
         if (*pd == '\n') {
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
             if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
+                p = ++pd;
                 continue;
             }
             zpl_array_append(lines, p);
-- 
2.43.0


From c81f1ac1d95a9f00f489a7c6b82d8cae952d580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 015/137] fix: text to integer conversion accepts exactly the
 digits of the base

---
 code/source/core/string.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..549191c 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -24,11 +24,13 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
         zpl_i64 v;
         if (zpl_char_is_digit(*text))
             v = *text - '0';
-        else if (base == 16 && zpl_char_is_hex_digit(*text))
-            v = zpl_hex_digit_to_int(*text);
+        else if (zpl_char_is_alpha(*text))
+            v = zpl_char_to_lower(*text) - 'a' + 10;
         else
             break;
 
+        if (v >= base) break;
+
         result *= base;
         result += v;
         text++;
@@ -52,11 +54,12 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
         zpl_u64 v;
         if (zpl_char_is_digit(*text))
             v = *text - '0';
-        else if (base == 16 && zpl_char_is_hex_digit(*text))
-            v = zpl_hex_digit_to_int(*text);
-        else {
+        else if (zpl_char_is_alpha(*text))
+            v = zpl_char_to_lower(*text) - 'a' + 10;
+        else
             break;
-        }
+
+        if (v >= cast(zpl_u64) base) break;
 
         result *= base;
         result += v;
-- 
2.43.0


From 3b54cc24de01c69c7c14aa7f2f63d717b0d4c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 016/137] fix: a precision cancels zero padding for integers
 only

---
 code/source/core/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 09ab9c5..71c3c1f 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -200,6 +200,7 @@ zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__for
     }
     num_info = *info;
     num_info.precision = -1;
+    num_info.flags &= ~ZPL_FMT_ZERO;
     return zpl__print_string(text, max_len, &num_info, num);
 }
 
@@ -308,7 +309,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             } else {
                 info.precision = cast(zpl_i32) zpl_str_to_i64(fmt, cast(char **) & fmt, 10);
             }
-            info.flags &= ~ZPL_FMT_ZERO;
         }
 
         switch (*fmt++) {
-- 
2.43.0


From 7c6cab4631bff70c2033b429ed94d3fb5d2617cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 017/137] fix: printing a text longer than the print buffer
 writes the part that fits

---
 code/source/core/print.c     | 2 +-
 code/source/core/stringlib.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 71c3c1f..193a4e2 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,7 +14,7 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
-    zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
+    zpl_b32 res = zpl_file_write(f, buf, len < 0 ? zpl_strlen(buf) : len - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
 
diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..af004cf 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -196,8 +196,9 @@ zpl_string zpl_string_append_fmt(zpl_string str, const char *fmt, ...) {
     char buf[ZPL_PRINTF_MAXLEN] = { 0 };
     va_list va;
     va_start(va, fmt);
-    res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va) - 1;
+    res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va);
     va_end(va);
+    res = res < 0 ? zpl_strlen(buf) : res - 1;
     return zpl_string_append_length(str, buf, res);
 }
 
-- 
2.43.0


From 58a5b50d2cc97cbfbe84e5388e4fab8482f3a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 018/137] fix: strnlen reads nothing behind the terminator

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 9c19d73..8698cef 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    zpl_isize len = 0;
+    while (len < max_len && str[len]) len++;
+    return len;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
-- 
2.43.0


From 5fc38162f0e1451b3dc56702eb32c0c5781593fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 019/137] fix: memory streams start at offset 0

---
 code/source/core/file_stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..d73fddb 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -44,6 +44,7 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->magic = ZPL__FILE_STREAM_FD_MAGIC;
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
+    d->cursor = 0;
     d->cap = 0;
     if (!zpl_array_init(d->buf, allocator)) return false;
     file->ops = zpl_memory_file_operations;
@@ -62,6 +63,7 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->magic = ZPL__FILE_STREAM_FD_MAGIC;
     d->alloc = allocator;
     d->flags = flags;
+    d->cursor = 0;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
         zpl_memcopy(d->buf, buffer, size);
-- 
2.43.0


From 2b7f0474225f6c5333fb151cfc0447b985fe1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 020/137] fix: memory streams read and write inside their
 buffer only

---
 code/source/core/file_stream.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index d73fddb..cc7d807 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -105,7 +105,10 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
+    if (offset < 0 || size < 0) return false;
+    zpl_isize avail = cast(zpl_isize)zpl_max(0, d->cap - offset);
+    size = zpl_min(size, avail);
+    if (size > 0) zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
 }
@@ -114,16 +117,25 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0) return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
+    if (offset > buflen && size > 0 && (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE)) {
+        // NOTE: writing past the end leaves a gap of zeros
+        if (zpl_array_capacity(d->buf) < offset) {
+            if (!zpl_array_grow(d->buf, (zpl_i64)(offset))) return false;
+        }
+        zpl_memset(d->buf + buflen, 0, offset - buflen);
+        d->cap = zpl_array_count(d->buf) = buflen = offset;
+    }
+    zpl_isize rwlen = zpl_clamp(buflen-offset, 0, size);
+    zpl_isize extralen = size-rwlen;
     zpl_isize new_cap = buflen+extralen;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if(zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
     }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
     if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
         zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
-- 
2.43.0


From ad9bd85409cc282a40e31fcad85ba04ae8c61a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 021/137] fix: file reads and writes move the cursor by the
 bytes transferred

---
 code/header/core/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..a4cd0e5 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -382,15 +382,17 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_read = 0;
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_written = 0;
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
-- 
2.43.0


From af2fbeef8d7062170f542fdf895fc27f30a363be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 022/137] fix: opening a file reports why it failed

---
 code/source/core/file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..b21a0a4 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -158,6 +158,7 @@ ZPL_BEGIN_C_DECLS
 
 #else // POSIX
 #    include <fcntl.h>
+#    include <errno.h>
 
     zpl_internal ZPL_FILE_SEEK_PROC(zpl__posix_file_seek) {
 #    if defined(ZPL_SYSTEM_OSX)
@@ -212,7 +213,13 @@ ZPL_BEGIN_C_DECLS
 
         fd->i = open(filename, os_mode, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
         if (fd->i < 0) {
-            // TODO: More file errors
+            switch (errno) {
+                case ENOENT: return ZPL_FILE_ERROR_NOT_EXISTS;
+                case EEXIST: return ZPL_FILE_ERROR_EXISTS;
+                case EPERM:
+                case EACCES: return ZPL_FILE_ERROR_PERMISSION;
+                case ENAMETOOLONG: return ZPL_FILE_ERROR_NAME_TOO_LONG;
+            }
             return ZPL_FILE_ERROR_INVALID;
         }
 
-- 
2.43.0


From 2e455613e091b4011b4c20a7a9b6223d2f2bc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 023/137] fix: a partial write to disk is continued or reported

---
 code/source/core/file.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index b21a0a4..dfb460f 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -183,15 +183,19 @@ ZPL_BEGIN_C_DECLS
         zpl_isize res;
         zpl_i64 curr_offset = 0;
         zpl__posix_file_seek(fd, 0, ZPL_SEEK_WHENCE_CURRENT, &curr_offset);
-        if (curr_offset == offset) {
-            // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
-            res = write(cast(int) fd.i, buffer, size);
-        } else {
-            res = pwrite(cast(int) fd.i, buffer, size, offset);
-        }
-        if (res < 0) return false;
-        if (bytes_written) *bytes_written = res;
-        return true;
+        zpl_isize written = 0;
+        do {
+            void const *rest = cast(char const *)buffer + written;
+            if (curr_offset == offset) {
+                // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
+                res = write(cast(int) fd.i, rest, size - written);
+            } else {
+                res = pwrite(cast(int) fd.i, rest, size - written, offset + written);
+            }
+            if (res > 0) written += res;
+        } while (res > 0 && written < size);
+        if (bytes_written) *bytes_written = written;
+        return written == size && res >= 0;
     }
 
     zpl_internal ZPL_FILE_CLOSE_PROC(zpl__posix_file_close) { close(fd.i); }
-- 
2.43.0


From d2e44fe0f56bad757dffbaeb5a2f6ca150fed94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 024/137] fix: writing a whole file reports its error

---
 code/source/core/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index dfb460f..73936a9 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -487,6 +487,9 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
 
     write_ok = zpl_file_write(&f, buffer, size);
     zpl_file_close(&f);
+    if (err)
+        *err = write_ok ? ZPL_FILE_ERROR_NONE : ZPL_FILE_ERROR_UNKNOWN;
+
     return write_ok;
 }
 
-- 
2.43.0


From 19b8a721f4bcd692ce7d2829323ccb70ce85b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 025/137] fix: the last write time of an existing file is its
 modification time

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From d91fca92551d41c9e93b9c2dc2f02f469e6341ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 026/137] fix: file copies replace the target, honour
 fail_if_exists and report failures

---
 code/source/core/file_misc.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 57982ab..d7286a0 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,27 +103,49 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
-        return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
+        return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA | (fail_if_exists ? COPYFILE_EXCL : 0)) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
+        zpl_unused(fail_if_exists);
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    elif defined(ZPL_SYSTEM_EMSCRIPTEN)
+        zpl_unused(fail_if_exists);
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    else
         int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        if (existing_fd < 0) return false;
+        struct stat stat_existing, stat_new;
+        if (fstat(existing_fd, &stat_existing) != 0 || S_ISDIR(stat_existing.st_mode)) {
+            close(existing_fd);
+            return false;
+        }
 
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        zpl_isize size = 0;
+        int new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode);
+        if (new_fd < 0) {
+            close(existing_fd);
+            return false;
+        }
+
+        // NOTE: a file is not copied onto itself
+        if (fstat(new_fd, &stat_new) != 0
+            || (stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino)
+            || ftruncate(new_fd, 0) != 0) {
+            close(new_fd);
+            close(existing_fd);
+            return false;
+        }
 
 #    if defined(ZPL_SYSTEM_FREEBSD)
         size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+        while (size < stat_existing.st_size) {
+            zpl_isize sent = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
+            if (sent <= 0) break;
+            size += sent;
+        }
 #    endif
 
         close(new_fd);
-- 
2.43.0


From 7ecc7a7b364ed1be0d48c60bbdf6c121dbcfa4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 027/137] fix: the full name of a path is freed where it was
 allocated

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index d7286a0..1712510 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -225,7 +225,7 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     result = zpl_alloc_array(a, char, len + 1);
     zpl_memmove(result, fullpath, len);
     result[len] = 0;
-    zpl_free(a, p);
+    free(p);
 
     return result;
 #endif
-- 
2.43.0


From 595ff7b4df71bbb5ef79b8d87d54b932ec56f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 028/137] fix: recursive directory creation reports failure

---
 code/source/core/file_misc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 1712510..a5b6756 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -268,7 +268,9 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
+    if (zpl_path_mkdir(tmp, mode) != ZPL_FILE_ERROR_NONE && zpl_fs_get_type(tmp) != ZPL_DIR_TYPE_FOLDER) {
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 57b174032494b185a608cf64ea1590f087ceef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 029/137] fix: directory listings name every entry and close
 the directories they open

---
 code/source/core/file_misc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index a5b6756..e278ba7 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -304,7 +304,7 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -314,9 +314,13 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dir->d_type == DT_DIR && (cd = opendir(dirpath)) != NULL) {
+                closedir(cd);
+                zpl__file_direntry(alloc, dirpath, output, recurse);
+            }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From 9538558e7c26c97b174a3a3a798b852ae3a802d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 030/137] fix: directory info keeps its path and handles files
 without a directory part

---
 code/source/core/file_misc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index e278ba7..ac681d0 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -382,7 +382,7 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
     zpl_strcpy((char *)dir->fullpath, path);
 
 
@@ -460,17 +460,25 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
     char const *path = entry->filename;
+    char *parent = NULL;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        if (slash == NULL) {
+            path = ".";
+        } else {
+            zpl_isize len = zpl_max(slash - path, 1);
+            parent = (char *)zpl_malloc(len + 1);
+            zpl_memcopy(parent, path, len);
+            parent[len] = '\0';
+            path = parent;
+        }
     }
 
     zpl_dirinfo_init(entry->dir_info, path);
+    if (parent) zpl_mfree(parent);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
-- 
2.43.0


From 7ccba077a20bd458db95195fbf1c7b9cb0501fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 031/137] fix: only directories are folders

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ac681d0..d4b6863 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -441,7 +441,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From bc328f7bf69d445e20acefa9af92da7f3613aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 032/137] fix: the extension of a path is taken from its last
 name

---
 code/header/core/file_misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/file_misc.h b/code/header/core/file_misc.h
index 8e46a03..75ebc3d 100644
--- a/code/header/core/file_misc.h
+++ b/code/header/core/file_misc.h
@@ -136,7 +136,7 @@ ZPL_IMPL_INLINE char const *zpl_path_base_name(char const *path) {
 ZPL_IMPL_INLINE char const *zpl_path_extension(char const *path) {
     char const *ld;
     ZPL_ASSERT_NOT_NULL(path);
-    ld = zpl_char_last_occurence(path, '.');
+    ld = zpl_char_last_occurence(zpl_path_base_name(path), '.');
     return (ld == NULL) ? NULL : ld + 1;
 }
 
-- 
2.43.0


From c09847f49c27d8d1df819bb4561ed8ac2b67c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 033/137] fix: tar packing stores whole names and sizes, skips
 folders of a packed directory and reports failed writes

---
 code/source/core/file_tar.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..eb4d3e4 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -39,6 +39,9 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
     for (zpl_isize i = 0; i < paths_len; i++) {
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name) || zpl_fs_get_type(paths[i]) == ZPL_DIR_TYPE_FOLDER) {
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
         zpl_file file;
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
@@ -48,14 +51,17 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        zpl_snprintf(hr.name, zpl_size_of(hr.name), "%s", paths[i]);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
         zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -73,7 +79,10 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
                     break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
+                if (!zpl_file_write(archive, buf, bytes_read)) {
+                    zpl_file_close(&file);
+                    return -(ZPL_TAR_ERROR_IO_ERROR);
+                }
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
@@ -100,6 +109,9 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
     char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+    for (zpl_isize i = zpl_array_count(files) - 1; i >= 0; i--) {
+        if (zpl_fs_get_type(files[i]) == ZPL_DIR_TYPE_FOLDER) zpl_array_remove_at(files, i);
+    }
     zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
     zpl_string_free(filelst);
     zpl_array_free(files);
-- 
2.43.0


From e7a869b68ae75e142b32328b659f17021f347551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 034/137] fix: reading a truncated or damaged tar archive ends
 with an error

---
 code/source/core/file_tar.c | 48 +++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index eb4d3e4..7c80764 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -123,39 +123,67 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     ZPL_ASSERT_NOT_NULL(unpack_proc);
 
     zpl_i64 pos = zpl_file_tell(archive);
+    zpl_i64 archive_size = zpl_file_size(archive);
     zpl__tar_header hr = {0};
     zpl_isize err = ZPL_TAR_ERROR_NONE;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read < zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
-        else if (*hr.checksum == 0) {
-            break;
+        else if (*hr.checksum == 0 && zpl__tar_checksum(&hr) == 256) {
+            break; // end mark: a block of zeros
         }
-        pos = zpl_file_tell(archive);
+        pos += zpl_size_of(hr);
+        zpl_file_seek(archive, pos);
+
+        // fields need not be terminated, numbers may be padded with spaces
+        char path[zpl_size_of(hr.name) + 1] = {0};
+        char size[zpl_size_of(hr.size) + 1] = {0};
+        char checksum[zpl_size_of(hr.checksum) + 1] = {0};
+        zpl_memcopy(path, hr.name, zpl_size_of(hr.name));
+        zpl_memcopy(size, hr.size, zpl_size_of(hr.size));
+        zpl_memcopy(checksum, hr.checksum, zpl_size_of(hr.checksum));
+        char *size_text = size, *checksum_text = checksum;
+        while (*size_text == ' ') size_text++;
+        while (*checksum_text == ' ') checksum_text++;
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = path;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl_str_to_i64(size_text, 0, 8);
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(checksum_text, 0, 8));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
-        rec.error = unpack_proc(archive, &rec, user_data);
+        if (rec.error == ZPL_TAR_ERROR_NONE && (*size_text < '0' || *size_text > '7')) {
+            err = ZPL_TAR_ERROR_INVALID_INPUT;
+            break;
+        }
+        if (rec.error == ZPL_TAR_ERROR_NONE && rec.length > archive_size - pos) {
+            err = ZPL_TAR_ERROR_IO_ERROR;
+            break;
+        }
 
-        if (rec.error > 0) {
+        if (unpack_proc(archive, &rec, user_data) > 0) {
             err = ZPL_TAR_ERROR_INTERRUPTED;
             break;
         }
 
+        /* the length of a damaged record is unknown */
+        if (checksum1 != checksum2) {
+            err = ZPL_TAR_ERROR_BAD_CHECKSUM;
+            break;
+        }
+
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
-- 
2.43.0


From 37910faf80ddcf0070339f5b7b4d4bcd2242f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 035/137] fix: unpacking a tar archive stays below the
 destination and reports files it can not write

---
 code/source/core/file_tar.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 7c80764..3cbf0de 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -211,13 +211,21 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    /* skip paths that could leave the destination */
+    for (char const *p = file->path; p; ) {
+        if (p[0] == '.' && p[1] == '.' && (p[2] == '\0' || p[2] == '/' || p[2] == ZPL_PATH_SEPARATOR))
+            return 0;
+        while (*p && *p != '/' && *p != ZPL_PATH_SEPARATOR) p++;
+        p = *p ? p + 1 : NULL;
+    }
+
+    char const *path = file->path;
+    while (*path == '/' || *path == ZPL_PATH_SEPARATOR) path++;
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
-    zpl_isize len = zpl_strlen(file->path);
+    zpl_isize len = zpl_strlen(path);
     ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
 
     zpl_strcpy(tmp, base_path);
@@ -227,7 +235,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
         char sep[2] = {ZPL_PATH_SEPARATOR, 0};
         zpl_strcat(tmp, sep);
     }
-    zpl_strcat(tmp, file->path);
+    zpl_strcat(tmp, path);
     zpl_path_fix_slashes(tmp);
 
     const char *last_slash = zpl_char_last_occurence(tmp, ZPL_PATH_SEPARATOR);
@@ -240,7 +248,8 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return 1;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
@@ -254,11 +263,19 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
                 break;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
+            if (!zpl_file_write(&f, buf, bytes_read)) {
+                zpl_file_close(&f);
+                return 1;
+            }
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
         while (remaining_data > 0);
+
+        if (remaining_data > 0) {
+            zpl_file_close(&f);
+            return 1;
+        }
     }
     zpl_file_close(&f);
     return 0;
-- 
2.43.0


From 358a6fe747ecebb7dbb17eec79ecef762045ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 036/137] fix: zpl_reverse walked its upper index away from the
 range

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..167315b 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -165,7 +165,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From cde3967a3d2499105531c7774c238e4a34b26613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 037/137] fix: zpl_shuffle picked negative positions

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 167315b..e656ebb 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -157,7 +157,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = zpl_random_range_isize(&random, 0, i - 1);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 4575a686a6bbacad98052c545f7b06489c27baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 038/137] fix: 8-bit radix sort left its result in the scratch
 buffer

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index e656ebb..f0f8c58 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes leaves the result in temp */                                                  \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(zpl_##Type));                              \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From f88066a6e2cc8825503f7c62ea56a80f94aef857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 039/137] fix: zpl_random_gen_u32_unique repeated values
 (modulo taken after truncation)

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..34a905a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From 3178f4522fa205d319a3b49aac75553f67d08905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 040/137] fix: random integer ranges overflowed and divided by
 zero on the full range

---
 code/source/core/random.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 34a905a..33395c2 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -121,11 +121,11 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1;
+    if (diff) u %= diff; // NOTE: 0 stands for the full 64-bit range
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -135,11 +135,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1;
+    if (diff) u %= diff; // NOTE: 0 stands for the full range
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
-- 
2.43.0


From 9d228b31c1fc027f6a2d0bee2aedf1cbc894887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 041/137] fix: zpl_random_range_f64 could leave its bounds by
 rounding or overflow

---
 code/source/core/random.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 33395c2..f7ad6a0 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -158,11 +158,8 @@ ZPL_ALWAYS_INLINE zpl_f64 zpl__random_copy_sign64(zpl_f64 x, zpl_f64 y) {
 
 zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_inc) {
     zpl_f64 f = cast(zpl_f64)zpl_random_gen_u64(r) / cast(zpl_f64)ZPL_U64_MAX;
-    zpl_f64 diff = higher_inc-lower_inc;
-    
-    f *= diff;
-    f += lower_inc;
-    return f;
+    f = lower_inc*(1.0-f) + higher_inc*f;
+    return f < lower_inc ? lower_inc : (f > higher_inc ? higher_inc : f);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From d08e3f20bf0588f63a0f4a1f92233770967b8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 042/137] fix: base64 decoding of malformed text wrote and read
 outside its buffers and leaked

---
 code/source/hashing.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..102bac8 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,15 +213,14 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
     for (i=len; i-- > 0;) {
@@ -293,18 +292,24 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
+    // NOTE: whole groups of four, padding nowhere but in the last one or two places
+    if (len < 0 || len % 4 != 0)
+        return NULL;
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL;
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    ZPL_ASSERT_NOT_NULL(ret);
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 804f4e0e8ce55e50e76358ae9091acb806135974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 043/137] fix: regex took failed matches for matches and read
 before its program

---
 code/source/regex.c | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..004d722 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -73,6 +73,10 @@ static zpl_re_ctx zpl_re__ctx_internal_failure(zpl_isize op) {
     return c;
 }
 
+static zpl_b32 zpl_re__matched(zpl_re_ctx c, zpl_isize str_len) {
+    return c.offset >= 0 && c.offset <= str_len;
+}
+
 static zpl_u8 zpl_re__hex(char const *s) {
     return ((zpl_char_to_hex_digit(*s) << 4) & 0xf0) | (zpl_char_to_hex_digit(*(s+1)) & 0x0f);
 }
@@ -111,35 +115,35 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
+static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize min_count, zpl_b32 is_greedy)
 {
     zpl_re_ctx c, best_c, next_c;
+    zpl_isize count, best_offset = offset;
+    zpl_isize next_op = zpl_re__exec_single(re, op, str, str_len, offset, 0, 0).op; // NOTE: where the rest starts
 
     c.op = op;
     c.offset = offset;
 
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
-
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
+    best_c = zpl_re__ctx_no_match(next_op);
 
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-
-            best_c = next_c;
-            if (!is_greedy) break;
+    for (count = 0;; count++) {
+        if (count >= min_count) {
+            next_c = zpl_re__exec(re, next_op, str, str_len, c.offset, 0, 0);
+            if (zpl_re__matched(next_c, str_len)) {
+                best_c = next_c;
+                best_offset = c.offset;
+                if (!is_greedy) break;
+            }
         }
 
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
-
+        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
+        if (!zpl_re__matched(c, str_len)) break;
     }
 
+    // NOTE: only the repetition that was chosen may capture
+    if (captures && zpl_re__matched(best_c, str_len))
+        zpl_re__exec(re, next_op, str, str_len, best_offset, captures, max_capture_count);
+
     return best_c;
 }
 
@@ -175,8 +179,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_BRANCH_START: {
             skip = re->buf[op++];
-            ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
+            ctx = zpl_re__exec(re, op, str, str_len, offset, 0, 0);
+            if (zpl_re__matched(ctx, str_len)) {
+                if (captures)
+                    zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
                 offset = ctx.offset;
                 op = ctx.op;
             } else {
@@ -273,46 +279,38 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ZERO_OR_ONE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
+            ctx = zpl_re__exec_single(re, op, str, str_len, offset, 0, 0);
 
-            if (ctx.offset <= str_len) {
-                zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
+            if (zpl_re__matched(ctx, str_len)) {
+                zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, 0, 0);
 
-                if (possible_ctx.offset <= str_len) {
+                if (zpl_re__matched(possible_ctx, str_len)) {
+                    if (captures)
+                        zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
                     op = possible_ctx.op;
                     offset = possible_ctx.offset;
                     break;
@@ -322,7 +320,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
             next_op = ctx.op;
             ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__matched(ctx, str_len)) {
                 op = ctx.op;
                 offset = ctx.offset;
                 break;
@@ -349,7 +347,7 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
     while (c.op < re->buf_len) {
         c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
 
-        if (c.offset > str_len || c.offset == -1)
+        if (!zpl_re__matched(c, str_len))
             break;
     }
 
-- 
2.43.0


From 03544e92e7b1c93316a9491c792154b8553750e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 044/137] fix: regex read past the end of the text and of a
 pattern ending in '['

---
 code/source/regex.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 004d722..16026d3 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -207,12 +207,13 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_OF: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = cast(zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op+i];
                 if (!cmatch) {
@@ -233,12 +234,13 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_BUT: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = cast(zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op + i];
                 if (!cmatch) {
@@ -267,8 +269,12 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_META_MATCH: {
             char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
+            char cmatch;
 
+            if (offset >= str_len)
+                return zpl_re__ctx_no_match(cin ? op : op + 1);
+
+            cmatch = str[offset++];
             if (!cin) {
                 if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
                     break;
@@ -440,7 +446,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
-- 
2.43.0


From 49421799834050b3a107471edafbde5f252d7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 045/137] fix: regex operands above 127 turned negative and
 above 255 were cut

---
 code/source/regex.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 16026d3..74c8e11 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -178,7 +178,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
+            skip = cast(zpl_u8)re->buf[op++];
             ctx = zpl_re__exec(re, op, str, str_len, offset, 0, 0);
             if (zpl_re__matched(ctx, str_len)) {
                 if (captures)
@@ -193,7 +193,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
+            skip = cast(zpl_u8)re->buf[op++];
             op += skip;
         } break;
 
@@ -257,10 +257,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
+            match_len = cast(zpl_u8)re->buf[op++];
 
             if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
+                zpl_memcompare(str+offset, (const char*)re->buf + op, match_len) != 0)
                 return zpl_re__ctx_no_match(op + match_len);
 
             op += match_len;
@@ -378,7 +378,7 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
+        if (v > 255)
             return ZPL_RE_ERROR_TOO_LONG;
         re->buf[re->buf_len++] = (char)v;
     }
@@ -510,7 +510,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     zpl_isize move_size;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        (cast(zpl_u8)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
-- 
2.43.0


From cabc570289749c301cd1e3584ddf7295b7e9f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 046/137] fix: regex alternation outside a group, of more than
 two branches or of long branches jumped to the wrong place

---
 code/source/regex.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 74c8e11..1408456 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -566,8 +566,10 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             } break;
 
             case ')': {
-                if (branch_op != -1)
+                if (branch_op != -1) {
+                    if (re->buf_len - (branch_op+2) > 255) return ZPL_RE_ERROR_TOO_LONG;
                     re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
+                }
 
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
@@ -589,13 +591,18 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
                     zpl_isize size = re->buf_len - branch_begin;
+                    if (size + 2 > 255) return ZPL_RE_ERROR_TOO_LONG;
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
                     zpl_memmove(re->buf + branch_begin + 2, re->buf + branch_begin, size);
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
                     re->buf[branch_begin+1] = (size+2) & 0xff;
+                    // NOTE: the end of a branch jumps to the end of the next one
+                    if (branch_op != -1)
+                        re->buf[branch_op + 1] = (unsigned char)(re->buf_len-2 - (branch_op+2));
                     branch_op = re->buf_len-2;
+                    branch_begin = last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -678,6 +685,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    if (branch_op != -1) {
+        if (re->buf_len - (branch_op+2) > 255) return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
+    }
+
     if (new_offset) *new_offset = offset;
     return ZPL_RE_ERROR_NONE;
 }
-- 
2.43.0


From 11d0997beaae7de6712573bddbbcd79f6b908e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 047/137] fix: regex accepted unclosed sets and groups, and
 looped forever on a lone ']'

---
 code/source/regex.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 1408456..ce897e1 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -557,9 +557,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
-
-                if ((offset > len) || (pattern[offset-1] != ')'))
-                    return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+                if (err) return err;
 
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_END_CAPTURE, (zpl_i32)capture);
                 if (err) return err;
@@ -581,10 +579,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
-                    return err;
+                if (err) return err;
             } break;
 
+            case ']': return ZPL_RE_ERROR_MISMATCHED_BLOCKS;
+
             /* NOTE(bill): Branching magic! */
             case '|': {
                 if (branch_begin >= re->buf_len) {
@@ -685,6 +684,10 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    // NOTE: a group ends at its ')', never at the end of the pattern
+    if (level > 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
     if (branch_op != -1) {
         if (re->buf_len - (branch_op+2) > 255) return ZPL_RE_ERROR_TOO_LONG;
         re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
-- 
2.43.0


From 5d3cf352543f27334594c4c38f66b35a057cff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 048/137] fix: regex quantifiers: '*?' meant '+?', and anchors,
 branches and quantifiers were quantified as if they were characters

---
 code/source/regex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index ce897e1..f3b6936 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -541,11 +541,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
     while (offset < len) {
         switch (pattern[offset++]) {
             case '^': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
             } break;
 
             case '$': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
             } break;
@@ -625,12 +627,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = quantifier == ZPL_RE_OP_ZERO_OR_MORE ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
                 err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '?': {
@@ -643,6 +646,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 err = zpl_re__compile_quantifier(re, last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '\\': {
-- 
2.43.0


From 8f3cdc1c0a5f3369143656db7b5e43c00d26eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 049/137] fix: regex took escapes such as \d followed by any
 character for hex codes, and codes of zero for class escapes

---
 code/source/regex.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index f3b6936..47b634a 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -472,8 +472,14 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                 buffer[buffer_len++] = zpl_re__hex((pattern+offset));
+                if (!buffer[buffer_len-1]) {
+                    // NOTE: a zero byte is spelled as the zero escape code
+                    if (buffer_len >= buffer_cap)
+                        return ZPL_RE_ERROR_TOO_LONG;
+                    buffer[buffer_len++] = 0;
+                }
                 offset++;
             }
             else if (offset < len) {
@@ -494,6 +500,11 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         }
         else {
             buffer[buffer_len++] = (unsigned char)pattern[offset];
+            if (!pattern[offset]) {
+                if (buffer_len >= buffer_cap)
+                    return ZPL_RE_ERROR_TOO_LONG;
+                buffer[buffer_len++] = 0;
+            }
         }
 
         offset++;
@@ -651,10 +662,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    err = hex_value ? zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value)
+                                    : zpl_re__emit_ops(re, 3, ZPL_RE_OP_META_MATCH, 0, 0);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
-- 
2.43.0


From 9f2a3674ee308a699873b20dc6395aa8dcc758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 050/137] fix: regex compiled nothing into a caller's buffer
 and wrote past its own when adding a quantifier

---
 code/source/regex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 47b634a..d92ee1e 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -532,7 +532,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
         return ZPL_RE_ERROR_NONE;
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
@@ -718,7 +718,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
-- 
2.43.0


From d97b9c736154c482d3d3ab6465d0767518530c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 051/137] fix: regex reported captures of failed attempts,
 never matched at the end of the text, and match_all looped on empty matches

---
 code/source/regex.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index d92ee1e..205614c 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -747,7 +747,16 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
 
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
+static void zpl_re__clear_captures(zpl_re_capture *captures, zpl_isize max_capture_count) {
+    zpl_isize i;
+    for (i = 0; captures && i < max_capture_count; i++) {
+        captures[i].str = NULL;
+        captures[i].len = 0;
+    }
+}
+
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
+    zpl_re__clear_captures(captures, max_capture_count);
     if (re && re->buf_len > 0) {
         if (re->buf[0] == ZPL_RE_OP_BEGINNING_OF_LINE) {
             zpl_re_ctx c = zpl_re__exec(re, 0, str, len, 0, captures, max_capture_count);
@@ -755,14 +764,18 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
             if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
         } else {
             zpl_isize i;
-            for (i = 0; i < len; i++) {
-                zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
+            for (i = 0; i <= len; i++) {
+                zpl_re_ctx c;
+                zpl_re__clear_captures(captures, max_capture_count);
+                c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
                 if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
                 if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
             }
         }
+        zpl_re__clear_captures(captures, max_capture_count);
         return 0;
     }
+    if (offset) *offset = 0;
     return 1;
 }
 
@@ -785,7 +798,7 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
             return false;
         }
 
-        p += offset;
+        p += offset > 0 ? offset : 1; // NOTE: step over an empty match
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
             zpl_array_append(*out_captures, cps[i]);
-- 
2.43.0


From ddf1dba4fd8e601bab785bc4b96eca7069aefdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 052/137] fix: zpl_re_destroy was declared but not defined, and
 a failed compile left a freed program behind

---
 code/source/regex.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 205614c..f01561c 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -739,12 +739,21 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    if (err != ZPL_RE_ERROR_NONE)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+    re->can_realloc = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 static void zpl_re__clear_captures(zpl_re_capture *captures, zpl_isize max_capture_count) {
-- 
2.43.0


From 0c844e292ed6ab7bccba16904d3ae071c227e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 053/137] fix: option entries moved by growth left positional
 pointers dangling

---
 code/source/opts.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..ee2519e 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,15 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    zpl_opts_entry *old = opts->entries;
     zpl_array_append(opts->entries, e);
+
+    // the entries may have moved
+    if (opts->entries != old) {
+        for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+            opts->positioned[i] = opts->entries + (opts->positioned[i] - old);
+        }
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
-- 
2.43.0


From 99cb952bbb50bd337bda9d6c7ac3ce0d7573c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 054/137] fix: setting a short-only option compared a NULL
 name, and a repeated string option leaked its first value

---
 code/source/opts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index ee2519e..7cf2088 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -101,6 +101,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            if (t->text) zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
@@ -114,7 +115,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
-- 
2.43.0


From 8c05b6492bd3e425e68daa547b2fb4a742fd75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 055/137] fix: option help read past the last entry and listed
 positionals backwards

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 7cf2088..3f2fdb6 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -133,7 +133,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = 0; i < zpl_array_count(opts->entries); ++i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
-- 
2.43.0


From a7a7f95d9a84c9117ab62823e496636f49270fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 056/137] fix: an extra value after a flag was reported without
 the flag's name

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 3f2fdb6..1a6de1e 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -217,7 +217,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
-- 
2.43.0


From 148f345e50baa8a2e64b8f43de33ff52abde5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 057/137] fix: tree nodes whose container's storage moved kept
 children pointing at their old place

---
 code/source/adt.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..58bdc24 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -7,6 +7,15 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return ZPL_ADT_ERROR_OUT_OF_MEMORY;                              \
 } while (0)
 
+/* nodes of a container have moved, their own children have to follow */
+zpl_internal void zpl__adt_relink(zpl_adt_node *parent, zpl_isize from) {
+    for (zpl_isize i = from; i < zpl_array_count(parent->nodes); ++i) {
+        zpl_adt_node *node = parent->nodes + i;
+        if ((node->type != ZPL_ADT_TYPE_OBJECT && node->type != ZPL_ADT_TYPE_ARRAY) || !node->nodes) continue;
+        for (zpl_isize j = 0; j < zpl_array_count(node->nodes); ++j) { node->nodes[j].parent = node; }
+    }
+}
+
 zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const *name, zpl_b32 is_array) {
     zpl_u8 type = ZPL_ADT_TYPE_OBJECT;
     if (is_array) {
@@ -28,6 +37,7 @@ zpl_u8 zpl_adt_destroy_branch(zpl_adt_node *node) {
         for (zpl_isize i = 0; i < zpl_array_count(node->nodes); ++i) { zpl_adt_destroy_branch(node->nodes + i); }
 
         zpl_array_free(node->nodes);
+        node->nodes = NULL;
     }
     return 0;
 }
@@ -229,9 +239,12 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_relink(parent, parent->nodes != old_nodes ? 0 : index + 1);
+
     return parent->nodes + index;
 }
 
@@ -301,6 +314,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink(parent, index);
+    zpl__adt_relink(other_parent, index2);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +324,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent, index);
 }
 
 
-- 
2.43.0


From 1e149638bcd65f253dbfd3ebf2350b35f15e71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 058/137] fix: moving a tree node within its container, or to a
 bad index, used storage that had moved or was never there

---
 code/source/adt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/source/adt.c b/code/source/adt.c
index 58bdc24..4c1c56c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -286,12 +286,20 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
+    zpl_isize old_index = old_parent ? node - old_parent->nodes : 0;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
+    if (!new_node) return NULL;
+    if (old_parent == new_parent) {
+        /* the allocation has moved the node as well */
+        node = new_parent->nodes + (index <= old_index ? old_index + 1 : old_index);
+    }
     *new_node = *node;
     new_node->parent = new_parent;
     if (old_parent) {
         zpl_adt_remove_node(node);
+        if (old_parent == new_parent && index > old_index) --new_node;
     }
+    zpl__adt_relink(new_node->parent, new_node - new_node->parent->nodes);
     return new_node;
 }
 
-- 
2.43.0


From 78e40145577a0bd7a7850e51318226b6c8d76de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 059/137] fix: looking a name up in an object with an unnamed
 field read through NULL

---
 code/source/adt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 4c1c56c..b2a9792 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -58,7 +58,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -110,7 +110,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
-- 
2.43.0


From 4ee9237aa815126b5cc4bd1e1125ecaa59de3587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 060/137] fix: a query segment that is no number found the
 first element of an array

---
 code/source/adt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index b2a9792..b83da49 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -212,8 +212,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *idx_end = buf;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &idx_end, 10);
+        if (idx_end != buf && !*idx_end && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From 243e449f7a5f939005a7e2ccf5fa892d2eb9d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 061/137] fix: numbers were read as hex digits, scaled
 inexactly and copied into buffers they could overrun

---
 code/header/adt.h |   4 +-
 code/source/adt.c | 161 ++++++++++++++++++++--------------------------
 2 files changed, 72 insertions(+), 93 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..005b9aa 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -84,10 +84,10 @@ typedef struct zpl_adt_node {
             /* number analysis */
             zpl_i32 base;
             zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_u8 base2_offset;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
+            zpl_i16 exp;
 #endif
         };
     };
diff --git a/code/source/adt.c b/code/source/adt.c
index b83da49..f3bc0ce 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -401,115 +401,94 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
 
     zpl_i32 base=0;
     zpl_i32 base2=0;
-    zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
+    zpl_isize base2_offset=0;
+    zpl_i32 exp=0;
+    zpl_b32 neg=false,has_exp=false,exact=false;
     zpl_u8 neg_zero=0;
     zpl_u8 lead_digit=0;
-    zpl_u8 node_type=0;
+    zpl_u8 node_type=ZPL_ADT_TYPE_INTEGER;
     zpl_u8 node_props=0;
+    zpl_i64 integer=0;
+    zpl_f64 real=0;
 
-    /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
-        return ++base_str;
+    if (*e == '+' || *e == '-') {
+        neg = (*e++ == '-');
     }
 
-    node_type = ZPL_ADT_TYPE_INTEGER;
-    neg_zero = false;
-
-    zpl_isize ib = 0;
-    char buf[48] = { 0 };
-
-    if (*e == '+')
-        ++e;
-    else if (*e == '-') {
-        buf[ib++] = *e++;
-    }
-
-    if (*e == '.') {
-        node_type = ZPL_ADT_TYPE_REAL;
-        node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
-        lead_digit = false;
-        buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
+    if (*e == '0' && zpl_char_to_lower(*(e+1)) == 'x' && zpl_char_is_hex_digit(*(e+2))) {
+        node_props = ZPL_ADT_PROPS_IS_HEX;
+        e += 2;
+        integer = (zpl_i64)zpl_str_to_u64(e, 0, 16);
+        while (zpl_char_is_hex_digit(*e)) ++e;
+        if (neg) integer = (zpl_i64)(0 - (zpl_u64)integer);
+        neg_zero = neg && integer == 0;
     } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
-
-        /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
-            return ++base_str;
-        }
-
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        char *whole = e;
+        while (zpl_char_is_digit(*e)) ++e;
+        zpl_isize whole_len = e - whole;
 
+        char *frac = e;
+        zpl_isize frac_len = 0;
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
-            lead_digit = true;
-            zpl_u32 step = 0;
-
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
-
-            if (step < 2) { buf[ib++] = '0'; }
+            frac = ++e;
+            while (zpl_char_is_digit(*e)) ++e;
+            frac_len = e - frac;
         }
-    }
 
-    /* check if we have a dot here, this is a false positive (IP address, ...) */
-    if (*e == '.') {
-        return ++base_str;
-    }
+        /* check if we have no digits or another dot here, this is a false positive (IP address, ...) */
+        if (!(whole_len + frac_len) || *e == '.') {
+            return ++base_str;
+        }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
+        if (*e == 'e' || *e == 'E') {
+            char *x = e + 1;
+            zpl_b32 exp_neg = (*x == '-');
+            if (*x == '+' || *x == '-') ++x;
+            if (zpl_char_is_digit(*x)) {
+                has_exp = true;
+                for (; zpl_char_is_digit(*x); ++x) { if (exp < 1000) exp = exp * 10 + (*x - '0'); }
+                if (exp_neg) exp = -exp;
+                e = x;
+            }
+        }
 
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+        if (node_type == ZPL_ADT_TYPE_INTEGER) {
+            integer = zpl_str_to_i64(neg ? whole - 1 : whole, 0, 10);
+            if (has_exp && integer) {
+                /* scale the integer as long as it can hold the result */
+                zpl_i32 i = exp;
+                while (i > 0 && integer <= ZPL_I64_MAX / 10 && integer >= ZPL_I64_MIN / 10) { integer *= 10; --i; }
+                if (i != 0) node_type = ZPL_ADT_TYPE_REAL;
+            }
+            neg_zero = neg && integer == 0;
         }
 
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
+        if (node_type == ZPL_ADT_TYPE_REAL) {
+            real = zpl_str_to_f64(p, 0);
+            lead_digit = whole_len > 0;
+
+            while (base2_offset < frac_len && frac[base2_offset] == '0') base2_offset++;
+            base = whole_len ? (zpl_i32)zpl_str_to_i64(whole, 0, 10) : 0;
+            base2 = base2_offset < frac_len ? (zpl_i32)zpl_str_to_i64(frac, 0, 10) : 0;
+            if (neg) base = -base;
+            neg_zero = neg && base == 0;
+
+            /* we can only print the digits back if the analysis data holds all of them */
+            exact = whole_len < 10 && frac_len - base2_offset < 10 && base2_offset < 128 && exp < 1000 && exp > -1000;
+            if (exact && has_exp) {
+                node_props = ZPL_ADT_PROPS_IS_EXP;
+            } else if (exact && !lead_digit) {
+                node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
+            }
+        }
     }
 
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        /* special case: negative zero */
-        if (node->integer == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
-#endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
+        node->integer = integer;
+        exp = 0;
     } else {
-        node->real = zpl_str_to_f64(buf, 0);
-
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        char *q = buf, *base_string = q, *base_string2 = q;
-        base_string = cast(char *)zpl_str_skip(base_string, '.');
-        *base_string = '\0';
-        base_string2 = base_string + 1;
-        char *base_string_off = base_string2;
-        while (*base_string_off++ == '0') base2_offset++;
-
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
-        if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
-            node_props = ZPL_ADT_PROPS_IS_EXP;
-        }
-
-        /* special case: negative zero */
-        if (base == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
-#endif
-        while (orig_exp-- > 0) { node->real *= eb; }
+        node->real = real;
     }
 
     node->type = node_type;
@@ -518,8 +497,8 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     node->base = base;
     node->base2 = base2;
-    node->base2_offset = base2_offset;
-    node->exp = exp;
+    node->base2_offset = (zpl_u8)zpl_min(base2_offset, 255);
+    node->exp = (zpl_i16)exp;
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
 #else
-- 
2.43.0


From f2cf917e30c0b83ce9a4cf52b86b228d15dd3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 062/137] fix: a text of number characters that is not one
 number was converted as if it were

---
 code/source/adt.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index f3bc0ce..65c514c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -378,16 +378,10 @@ zpl_adt_node *zpl_adt_append_int(zpl_adt_node *parent, char const *name, zpl_i64
 char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
-
-    while (*e)
-        ++e;
-
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
-        ++p;
-    }
+    zpl_adt_node number = {0};
+    char *e = zpl_adt_parse_number(&number, base_str);
 
-    if (p >= e) {
+    if (number.type != ZPL_ADT_TYPE_UNINITIALISED && !*e) {
         return zpl_adt_parse_number(node, base_str);
     }
 
-- 
2.43.0


From 352e59ce9812a9aa82b3f7a37dbfed023cb3e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 063/137] fix: numbers read from text were printed with an
 extra zero, two signs or their digits out of order

---
 code/source/adt.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 65c514c..7675efb 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -506,6 +506,14 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     return e;
 }
 
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+static zpl_adt_error zpl__adt_print_fraction(zpl_file *file, zpl_adt_node *node) {
+    for (zpl_u8 i = 0; i < node->base2_offset; ++i) { zpl__adt_fprintf(file, "0"); }
+    if (node->base2 || !node->base2_offset) { zpl__adt_fprintf(file, "%lld", (long long)node->base2); }
+    return ZPL_ADT_ERROR_NONE;
+}
+#endif
+
 zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(node);
@@ -514,7 +522,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     }
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (node->neg_zero) {
+    if (node->neg_zero && !(node->type == ZPL_ADT_TYPE_REAL && node->props == 0 && node->real != 0)) {
         zpl__adt_fprintf(file, "-");
     }
 #endif
@@ -545,12 +553,14 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 zpl__adt_fprintf(file, "null");
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             } else if (node->props == ZPL_ADT_PROPS_IS_EXP) {
-                zpl__adt_fprintf(file, "%lld.%0*d%llde%lld", (long long)node->base, node->base2_offset, 0, (long long)node->base2, (long long)node->exp);
+                zpl__adt_fprintf(file, "%lld.", (long long)node->base);
+                if (zpl__adt_print_fraction(file, node)) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+                zpl__adt_fprintf(file, "e%lld", (long long)node->exp);
             } else if (node->props == ZPL_ADT_PROPS_IS_PARSED_REAL) {
-                if (!node->lead_digit)
-                    zpl__adt_fprintf(file, ".%0*d%lld", node->base2_offset, 0, (long long)node->base2);
-                else
-                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long int)node->base2_offset, 0, (int)node->base, (long long)node->base2);
+                if (node->lead_digit)
+                    zpl__adt_fprintf(file, "%lld", (long long)node->base);
+                zpl__adt_fprintf(file, ".");
+                if (zpl__adt_print_fraction(file, node)) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
 #endif
             } else {
                 zpl__adt_fprintf(file, "%f", node->real);
-- 
2.43.0


From d3ad526d26eff136635843e310446e2c6a6c7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 064/137] fix: printing a string escaped what was already
 escaped, left a last escape open and cut long text

---
 code/source/adt.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 7675efb..36aa9d3 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -586,9 +586,16 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
         return ZPL_ADT_ERROR_NONE;
 
     do {
-        p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
-        if (*p && !!zpl_strchr(escaped_chars, *p)) {
+        while (*p && !zpl_strchr(escaped_chars, *p)) {
+            if (*p == *escape_symbol) {
+                /* an escaped symbol is kept as is, unless there's nothing left to escape */
+                if (!p[1]) break;
+                ++p;
+            }
+            ++p;
+        }
+        if (p != b && !zpl_file_write(file, b, zpl_ptr_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+        if (*p) {
             zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
             p++;
         }
-- 
2.43.0


From d9ffd89dca44889ef75d06ef478d8adc26ae526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 065/137] fix: a comment in JSON text swallowed the character
 after it, or ran past the end of the text

---
 code/source/parsers/json.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..3ce1219 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -352,26 +352,24 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    while (*p) {
         if (zpl_str_has_prefix(p, "//")) {
-            const char *e = zpl_str_skip(p, '\n');
-            p += (e-p);
+            p = cast(char *)zpl_str_skip(p, '\n');
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            char *e = p + 2;
+            while (*e && !zpl_str_has_prefix(e, "*/")) ++e;
+            if (!*e) return p; /* never closed, and nothing we would accept */
+            p = e + 2; /* advance past end comment block */
         }
-        else if (*p == '\n' && catch_newline) {
+        else if ((*p == '\n' && catch_newline) || !zpl_char_is_space(*p)) {
             return p;
         }
-        else if (!zpl_char_is_space(*p)) {
-            return p;
+        else {
+            ++p;
         }
-    } while (*p++);
-    return NULL;
+    }
+    return p;
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 9b7fd2bf0b5ddcaced6dc7bcca6e9ca988917c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 066/137] fix: an empty line before the brace made a JSON
 document a bare one

---
 code/source/parsers/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 3ce1219..e8c1790 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -34,7 +34,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     ZPL_ASSERT(root);
     ZPL_ASSERT(text);
     zpl_zero_item(root);
-    text = zpl__json_trim(text, true);
+    text = zpl__json_trim(text, false);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     if (!zpl_strchr("{[", *text)) {
-- 
2.43.0


From 1c67c39dd41ca3c4606e1ee53953527e9bb17cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 067/137] fix: a failed JSON parse leaked the nodes it had
 built and left its text cut up, and nodes lost track of parents that moved

---
 code/source/parsers/json.c | 104 +++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 34 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index e8c1790..ccdeb19 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+static void zpl__json_finish(zpl_adt_node *obj, char *text);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -43,6 +44,13 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+
+    if (err_code == ZPL_JSON_ERROR_NONE) {
+        zpl__json_finish(root, text);
+    } else {
+        zpl_adt_destroy_branch(root);
+        zpl_zero_item(root);
+    }
     return err_code;
 }
 
@@ -68,13 +76,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 #define zpl__json_append_node(x, item)\
 do {\
 if (!zpl_array_append(x, item)) {\
+    zpl_adt_destroy_branch(&item);\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
@@ -87,15 +92,14 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end);
 
 #define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end) {
+    while (str < end) {
         /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
-            (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
-            if (err) *err = *str;
+        if (str[0] == '\\' && !zpl_char_is_control(str[1]) && str[1] != '\'' &&
+            !(end - str > 4 && !(jx(1) && jx(2) && jx(3) && jx(4)))) {
             return false;
         }
 
@@ -106,6 +110,31 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
 }
 #undef jx
 
+/* once the whole text is known to be sound: link the nodes to their parents and terminate their names and strings */
+static void zpl__json_finish(zpl_adt_node *obj, char *text) {
+    for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
+        zpl_adt_node *node = obj->nodes + i;
+        node->parent = obj;
+
+        if (node->name) {
+            char *e = cast(char *)node->name;
+            if (e != text && (e[-1] == '"' || e[-1] == '\'')) {
+                e = cast(char *)zpl_str_skip_literal(e, e[-1]);
+            } else {
+                zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
+            }
+            *e = '\0';
+        }
+
+        if (node->type == ZPL_ADT_TYPE_STRING || node->type == ZPL_ADT_TYPE_MULTISTRING) {
+            char *e = cast(char *)zpl_str_skip_literal(node->string, node->string[-1]);
+            *e = '\0';
+        } else if (node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) {
+            zpl__json_finish(node, text);
+        }
+    }
+}
+
 char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
@@ -126,7 +155,10 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -160,7 +192,12 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         b = e = p + 1;
         obj->string = b;
         e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
+        if (!*e) {
+            ZPL_JSON_ASSERT("string left open");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        p = e + 1; /* null-terminated once we're done, see zpl__json_finish */
     } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
@@ -210,6 +247,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     } else if (!!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
@@ -250,7 +288,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
@@ -282,7 +323,6 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
@@ -295,18 +335,28 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
 #endif
             char c = *p;
             b = ++p;
-            e = cast(char *)zpl_str_control_skip(b, c);
+            e = cast(char *)zpl_str_skip_literal(b, c);
             node->name = b;
 
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            if (!*e) {
+                ZPL_JSON_ASSERT("name left open");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            if (!zpl__json_validate_name(b, e)) {
+                ZPL_JSON_ASSERT("invalid name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            ++e;
         }
         else {
             b = e = p;
-            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
+            zpl_str_advance_while(e, zpl_char_is_alphanumeric(*e) || *e == '_');
             node->name = b;
-            name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+            node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
+#endif
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -330,20 +380,6 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
 #endif
         }
-
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            node->name_style = name_style;
-#endif
-        }
-    }
-
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
-        ZPL_JSON_ASSERT("invalid name");
-        *err_code = ZPL_JSON_ERROR_INVALID_NAME;
-        return NULL;
     }
 
     return p;
-- 
2.43.0


From 2a627a65c679af8a2443506930b0920e6fb88fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 068/137] fix: JSON text that ends early or goes on after its
 document was accepted, or read past its end

---
 code/source/parsers/json.c | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index ccdeb19..448138b 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -43,7 +43,15 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     }
 #endif
 
-    zpl__json_parse_object(root, text, a, &err_code);
+    char *end = zpl__json_parse_object(root, text, a, &err_code);
+
+    if (err_code == ZPL_JSON_ERROR_NONE) {
+        if (*end) ++end; /* skip the closing brace */
+        if (*zpl__json_trim(end, false)) {
+            ZPL_JSON_ASSERT("text after the document");
+            err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        }
+    }
 
     if (err_code == ZPL_JSON_ERROR_NONE) {
         zpl__json_finish(root, text);
@@ -145,11 +153,15 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         return NULL;
     }
 
-    while (*p) {
+    for (;;) {
         p = zpl__json_trim(p, false);
 
         if (*p == ']') {
             return p;
+        } else if (*p == '\0' || *p == '}') {
+            ZPL_JSON_ASSERT("end of array unfulfilled");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+            return NULL;
         }
 
         zpl_adt_node elem = { 0 };
@@ -176,9 +188,6 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return p;
         }
     }
-
-    *err_code = ZPL_JSON_ERROR_INTERNAL;
-    return NULL;
 }
 
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
@@ -186,7 +195,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         b = e = p + 1;
@@ -244,7 +253,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
         if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
@@ -258,8 +267,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     ZPL_ASSERT(obj && base);
     char *p = base;
 
+    zpl_b32 braced = false;
+
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; braced = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -275,8 +286,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     do {
         zpl_adt_node node = { 0 };
         p = zpl__json_trim(p, false);
-        if (*p == '}' && obj->type == ZPL_ADT_TYPE_OBJECT) return p;
-        else if (*p == ']' && obj->type == ZPL_ADT_TYPE_ARRAY) return p;
+        if (*p == '}' && braced) return p;
         else if (!!zpl_strchr("}]", *p)) {
             ZPL_JSON_ASSERT("mismatched end pair");
             *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
@@ -299,7 +309,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         p = zpl__json_trim(p, true);
 
         /* this code analyses the keyvalue pair delimiter used in the packet. */
-        if (zpl__json_is_delim_char(*p)) {
+        if (*p && zpl__json_is_delim_char(*p)) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             zpl_adt_node *n = zpl_array_end(obj->nodes);
             n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
@@ -311,13 +321,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
-            if (*p == 0) {
-                return p;
-            }
             ++p;
         }
         p = zpl__json_trim(p, false);
-    } while (*p);
+    } while (*p || braced);
     return p;
 }
 
@@ -365,7 +372,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
-- 
2.43.0


From abdb974070c8b630660115d89541fdd9fe5731d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 069/137] fix: JSON members without a name, missing values,
 malformed numbers and words that begin with a constant were accepted

---
 code/source/parsers/json.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 448138b..d5be1ba 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -207,7 +207,7 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return NULL;
         }
         p = e + 1; /* null-terminated once we're done, see zpl__json_finish */
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -249,15 +249,30 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
             return NULL;
         }
+        if (zpl_char_is_alphanumeric(*p) || *p == '_') {
+            ZPL_JSON_ASSERT("unknown keyword");
+            *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
+            return NULL;
+        }
     } else if (zpl_char_is_digit(*p) || *p == '+' || *p == '-' || *p == '.') {
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
+        if (obj->type == ZPL_ADT_TYPE_UNINITIALISED || zpl_char_is_alphanumeric(*p) || (*p && !!zpl_strchr("_.+-", *p))) {
+            ZPL_JSON_ASSERT("invalid number");
+            obj->type = ZPL_ADT_TYPE_UNINITIALISED;
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
     } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
         if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
+    } else {
+        ZPL_JSON_ASSERT("missing value");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
     }
 
     return p;
@@ -387,6 +402,10 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
 #endif
         }
+    } else {
+        ZPL_JSON_ASSERT("missing name");
+        *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
+        return NULL;
     }
 
     return p;
-- 
2.43.0


From 0931c787005cef9999097d19c1e93a8f934916f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 070/137] fix: a comma at the start of a line was taken for a
 nameless JSON member

---
 code/source/parsers/json.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index d5be1ba..873051b 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -336,6 +336,16 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
+            if (*p == '\n') {
+                /* the delimiter itself can still follow on one of the next lines */
+                char *next_p = zpl__json_trim(p, false);
+                if (*next_p && *next_p != '\n' && zpl__json_is_delim_char(*next_p)) {
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+                    zpl_array_end(obj->nodes)->delim_style = (*next_p == ',') ? ZPL_ADT_DELIM_STYLE_COMMA : ZPL_ADT_DELIM_STYLE_LINE;
+#endif
+                    p = next_p;
+                }
+            }
             ++p;
         }
         p = zpl__json_trim(p, false);
-- 
2.43.0


From 2ac7ce87a2bc11873aac8401bcb73aaa4c9b5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 071/137] fix: names were written to JSON without escaping the
 quote they are written in

---
 code/source/parsers/json.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 873051b..1e1e4fa 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -444,6 +444,17 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     return p;
 }
 
+static zpl_b8 zpl__json_write_name(zpl_file *f, char const *name, char const *quote) {
+    zpl_adt_node text = { 0 };
+    text.type = ZPL_ADT_TYPE_STRING;
+    text.string = name;
+
+    if (!quote) return !name || !*name || zpl_file_write(f, name, zpl_strlen(name));
+    if (!zpl_file_write(f, quote, 1)) return false;
+    if (zpl_adt_print_string(f, &text, quote, "\\")) return false;
+    return zpl_file_write(f, quote, 1) != 0;
+}
+
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
     if (!o)
         return true;
@@ -495,15 +506,15 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__json_fprintf(f, "\"%s\"", node->name);
+                    if (!zpl__json_write_name(f, node->name, "\"")) return false;
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_SINGLE_QUOTE: {
-                    zpl__json_fprintf(f, "\'%s\'", node->name);
+                    if (!zpl__json_write_name(f, node->name, "\'")) return false;
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-                    zpl__json_fprintf(f, "%s", node->name);
+                    if (!zpl__json_write_name(f, node->name, NULL)) return false;
                 } break;
             }
 
@@ -520,7 +531,8 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
                 }
             }
 #else
-            zpl__json_fprintf(f, "\"%s\":%s", node->name, zpl__json_string_space(indent));
+            if (!zpl__json_write_name(f, node->name, "\"")) return false;
+            zpl__json_fprintf(f, ":%s", zpl__json_string_space(indent));
 #endif
         }
     }
-- 
2.43.0


From 470210d6558b00eb2d1b13f13794a8ec60f28416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 072/137] fix: a failed JSON write leaked its stream

---
 code/source/parsers/json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 1e1e4fa..1c72c7e 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -70,8 +70,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 1400f17483df1936ffc2a36549e6c8413d652585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 073/137] fix: a JSON name was refused for what follows an
 escaped backslash in it

---
 code/source/parsers/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 1c72c7e..e204d49 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -113,6 +113,7 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end
             return false;
         }
 
+        if (str[0] == '\\') ++str; /* what was escaped begins no escape of its own */
         ++str;
     }
 
-- 
2.43.0


From 196a635cf72cfc8c0e91535d7a264515ad132e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 074/137] fix: an indented bare JSON document was written with
 a closing brace it never opened

---
 code/source/parsers/json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index e204d49..a88a02c 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -487,6 +487,9 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
     zpl___ind(indent);
 
     if (indent > 0) {
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+        if (!o->cfg_mode)
+#endif
         zpl__json_fprintf(f, "%c", o->type == ZPL_ADT_TYPE_OBJECT ? '}' : ']');
     } else {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-- 
2.43.0


From 12f3fa79e946a5cfa0cf61103021783d9c4f4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 075/137] fix: real numbers lost part of their last digit each
 time they were written

---
 code/source/adt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 36aa9d3..23afea8 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -563,7 +563,10 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 if (zpl__adt_print_fraction(file, node)) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
 #endif
             } else {
-                zpl__adt_fprintf(file, "%f", node->real);
+                /* printing cuts digits off, so round to what we print */
+                zpl_f64 real = node->real + (node->real < 0 ? -0.0000005 : 0.0000005);
+                if (real > -0.000001 && real < 0.000001) real = 0;
+                zpl__adt_fprintf(file, "%f", real);
             }
         } break;
     }
-- 
2.43.0


From d28498d3c91e2a688ae6b84f9a5fa596c7f5b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 076/137] fix: a member that ended its line was written to a
 top-level array without the comma it needs there

---
 code/source/parsers/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index a88a02c..8b3a44e 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -580,7 +580,7 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 
     if (!is_inline) {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        if (o->delim_style != ZPL_ADT_DELIM_STYLE_COMMA) {
+        if (o->delim_style != ZPL_ADT_DELIM_STYLE_COMMA && t->type != ZPL_ADT_TYPE_ARRAY) {
             if (o->delim_style == ZPL_ADT_DELIM_STYLE_NEWLINE)
                 zpl__json_fprintf(f, "\n");
             else if (o->delim_style == ZPL_ADT_DELIM_STYLE_LINE) {
-- 
2.43.0


From 885e2b26aafe3ef524b32b2cf3cb5fb79748c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 077/137] fix: CSV: dates and other fields that only begin with
 a number lost the rest of their text, and so did integers that are too long

---
 code/source/parsers/csv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..a0afa85 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -96,7 +96,10 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             } while (*num_p++);
 
             if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+                zpl_adt_node number = row_item;
+                zpl_adt_str_to_number_strict(&number);
+                /* an integer that may not fit stays as text */
+                if (number.type != ZPL_ADT_TYPE_INTEGER || zpl_strlen(b) <= 18) row_item = number;
             }
         }
 
-- 
2.43.0


From 7c7243be32e8e81d499fe007658cd8040148ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 078/137] fix: CSV: a header made of numbers was read as a
 string pointer

---
 code/source/parsers/csv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index a0afa85..15e57c6 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -17,7 +17,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
     zpl_zero_item(root);
     zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, total_colc = 0, rowc = 0;
 
     do {
         char d = 0;
@@ -86,14 +86,15 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             }
 
             /* check if number and process if so */
-            zpl_b32 skip_number = false;
+            zpl_b32 skip_number = has_header && rowc == 0;
             char *num_p = b;
-            do {
+            while (!skip_number && *num_p) {
                 if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
                     skip_number = true;
                     break;
                 }
-            } while (*num_p++);
+                num_p++;
+            }
 
             if (!skip_number) {
                 zpl_adt_node number = row_item;
@@ -122,6 +123,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             colc = 0;
+            rowc++;
             if (d != 0) p++;
         }
     } while(*p);
-- 
2.43.0


From 549e1ba02a260a3d8c3abc5be22a7ce17f91714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 079/137] fix: CSV: rows that are longer than the first one
 were accepted, and shifted cells between rows

---
 code/source/parsers/csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 15e57c6..da9bd94 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -116,7 +116,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
         else if (d == '\n' || d == 0) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (rowc == 0) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
-- 
2.43.0


From 2dafe300ec86787b5f2b377547f7e91bf5638658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 080/137] fix: CSV: unescaping an empty quoted field ran into
 the fields behind it

---
 code/source/parsers/csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index da9bd94..41a9aa3 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -55,12 +55,12 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
+                while (*ep) {
                     if (*ep == '"' && *(ep+1) == '"') {
                         zpl_memmove(ep, ep+1, zpl_strlen(ep));
                     }
                     ep++;
-                } while (*ep);
+                }
             }
         }
         else if (*p == delim) {
-- 
2.43.0


From e959b410113187ac4f571004cd10691916c9952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 081/137] fix: CSV: text behind a closing quote was stored as
 one more cell of the same column

---
 code/source/parsers/csv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 41a9aa3..8018465 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -51,6 +51,11 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             *e = 0;
             p = cast(char *)zpl_str_trim(e+1, true);
             d = *p;
+            if (d != 0 && d != delim && d != '\n') {
+                ZPL_CSV_ASSERT("unexpected text after a quoted string");
+                err = ZPL_CSV_ERROR_INTERNAL;
+                return err;
+            }
 
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
-- 
2.43.0


From eceed874344c476cbc147b466dd80d5a24fbc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 082/137] fix: CSV: an empty last field took the first field of
 the next row, or was lost at the end of the text

---
 code/source/parsers/csv.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 8018465..4b43663 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -21,8 +21,9 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
 
     do {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        /* behind a delimiter there's always one more field in this row */
+        p = cast(char *)zpl_str_trim(p, colc != 0);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -68,11 +69,11 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 }
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
-        else if (*p) {
+        else {
             /* regular data */
             b = e = p;
             row_item.string = b;
@@ -131,7 +132,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             rowc++;
             if (d != 0) p++;
         }
-    } while(*p);
+    } while(*p || colc != 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
-- 
2.43.0


From a39025c53ce1016f251c55cf5cec35409ef4b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 083/137] fix: CSV: the last field of a text kept the spaces
 behind it

---
 code/source/parsers/csv.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4b43663..d5734c7 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -80,16 +80,10 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
+            p = e;
+            d = *p;
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            if (*e) *e = 0;
 
             /* check if number and process if so */
             zpl_b32 skip_number = has_header && rowc == 0;
-- 
2.43.0


From 01afca90ef9d2b0620654d3f1466165acf168193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 084/137] fix: CSV: empty fields of tab-delimited texts were
 skipped

---
 code/source/parsers/csv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index d5734c7..4c9a072 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,6 +10,12 @@
 
 ZPL_BEGIN_C_DECLS
 
+/* skips white space that isn't a delimiter */
+static char *zpl__csv_trim(char *p, zpl_b32 catch_newline, char delim) {
+    while (*p != delim && zpl_char_is_space(*p) && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
@@ -22,7 +28,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
     do {
         char d = 0;
         /* behind a delimiter there's always one more field in this row */
-        p = cast(char *)zpl_str_trim(p, colc != 0);
+        p = zpl__csv_trim(p, colc != 0, delim);
         if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
@@ -50,7 +56,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, true, delim);
             d = *p;
             if (d != 0 && d != delim && d != '\n') {
                 ZPL_CSV_ASSERT("unexpected text after a quoted string");
-- 
2.43.0


From dc46b74f4f49002cf114136ba60389df5af46695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 085/137] fix: CSV: unquoted texts that hold delimiters, quotes
 or line ends were written in a way that reads back as other fields

---
 code/source/parsers/csv.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4c9a072..9ef9f4a 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -156,15 +156,35 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+/* can this text only be kept intact in quotes? */
+static zpl_b32 zpl__csv_needs_quotes(char const *text, char delimiter, zpl_b32 alone) {
+    if (*text == 0) return alone; /* a lone empty field would make a blank line */
+    if (*text == '"' || zpl_char_is_space(*text)) return true;
+
+    for (; *text; ++text) {
+        if (*text == delimiter || *text == '\n') return true;
+    }
+
+    return zpl_char_is_space(*(text-1));
+}
+
+static void zpl__csv_write_quoted(zpl_file *file, zpl_csv_object *node) {
+    zpl_fprintf(file, "\"");
+    zpl_adt_print_string(file, node, "\"", "\"");
+    zpl_fprintf(file, "\"");
+}
+
+void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter, zpl_b32 alone) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
+            if (node->string && zpl__csv_needs_quotes(node->string, delimiter, alone)) {
+                zpl__csv_write_quoted(file, node);
+                break;
+            }
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
+                    zpl__csv_write_quoted(file, node);
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
@@ -183,11 +203,11 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     }
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delimiter, zpl_b32 alone) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    zpl__csv_write_record(file, &temp, delimiter, alone);
 }
 
 void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
@@ -204,7 +224,7 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
+            zpl__csv_write_header(file, &obj->nodes[i], delimiter, cols == 1);
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
@@ -214,7 +234,7 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter, cols == 1);
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
-- 
2.43.0


From ae25e5552407eb3feade147186e4bbdc04605b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 086/137] fix: CSV: unquoted fields were cut at the size of the
 print buffer

---
 code/source/parsers/csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 9ef9f4a..fdad7b8 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -189,7 +189,7 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter,
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    zpl_fprintf(file, "%s", node->string);
+                    if (node->string && *node->string) zpl_file_write(file, node->string, zpl_strlen(node->string));
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
-- 
2.43.0


From 879e19f11ea2cc42287637341aec391cff5897af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 087/137] fix: CSV: a table that has a header and no rows was
 written as nothing

---
 code/source/parsers/csv.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index fdad7b8..4fca967 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -218,9 +218,8 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
     if (cols == 0) return;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
-
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
+    if (rows == 0 && !has_headers) return;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-- 
2.43.0


From 69fadb8757606fa9332db19ca14c44b2f1d54656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 088/137] fix: URI: a percent sign without two hex digits was
 decoded to garbage, and at the end of a field read and wrote behind it; long
 fields overran the decoding buffer

---
 code/source/parsers/uri.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..bb37512 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,7 +3,8 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
+    /* decoding never makes the text longer, so we can do it in place */
+    char *p = text;
     char *tp = text;
     
     char ch = -1;
@@ -16,6 +17,8 @@ void zpl__uri_decode_str(char *text) {
             } else {
                 *(p++) = ch;
             }
+        } else if (!zpl_char_is_hex_digit(tp[0]) || !zpl_char_is_hex_digit(tp[1])) {
+            *(p++) = ch;
         } else {
             char hex[3] = {0};
             hex[0] = tp[0];
@@ -26,8 +29,7 @@ void zpl__uri_decode_str(char *text) {
         }
     }
     
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
-- 
2.43.0


From 2336a84d78c984973804b9ce79cbfd1db6ad75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 089/137] fix: URI: the origin was written as a format string

---
 code/source/parsers/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index bb37512..60c0f40 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -150,7 +150,7 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, origin->string);
+            zpl_file_write(f, origin->string, zpl_strlen(origin->string));
         }
     }
     
-- 
2.43.0


From fc4b3649d0b13ef155b8cececc95f9bb3a438b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 090/137] fix: URI: values that are integers too long to hold
 were decoded to another number

---
 code/source/parsers/uri.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 60c0f40..f644615 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -96,7 +96,10 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
-            zpl_adt_str_to_number_strict(obj);
+            zpl_adt_node number = *obj;
+            zpl_adt_str_to_number_strict(&number);
+            /* an integer that may not fit stays as text */
+            if (number.type != ZPL_ADT_TYPE_INTEGER || zpl_strlen(field_value) <= 18) *obj = number;
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
             obj->props = ZPL_ADT_PROPS_TRUE;
-- 
2.43.0


From 3a2a02bf3748bfb47cf299ad9ef5f3b6e52028f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 091/137] fix: jobs: freeing a pool could wait for ever for a
 worker just handed a job

A worker answered READY with a plain store of BUSY. When zpl_jobs_free() had
set TERM between the worker's load and that store, the request was lost, the
worker went back to waiting and the join never returned. Take the job with a
compare-exchange, and look again when the status has changed meanwhile.
---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..6a4176c 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,9 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                // NOTE: The main thread may ask us to terminate meanwhile, do not overwrite that
+                zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY);
+                if (zpl_atomic32_load(&tw->status) != ZPL_JOBS_STATUS_BUSY) break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 014da72982da8cbd4ca6db67c8e7f453af8a3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 092/137] fix: jobs: a queue could starve while other queues
 are kept busy

The dispatch counter was advanced by every queue looked at, so that with two
busy queues its parity could stick: REALTIME was then never served while HIGH
had jobs waiting. Advance the counter once per idle worker and test each queue's
chance against that round. The chances are distinct primes, so every waiting
queue gets rounds in which it, and none of the queues before it, is due.
---
 code/source/jobs.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index 6a4176c..a4c55e4 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -161,20 +161,19 @@ zpl_b32 zpl_jobs_process(zpl_jobs_system *pool) {
     for (zpl_usize i = 0; i < pool->max_threads; ++i) {
         zpl_thread_worker *tw = pool->workers + i;
         zpl_u32 status = zpl_atomic32_load(&tw->status);
-        zpl_b32 last_empty = false;
 
         if (status == ZPL_JOBS_STATUS_WAITING) {
+            zpl_u32 round = pool->counter++;
+
             for (zpl_usize j = 0; j < ZPL_JOBS_MAX_PRIORITIES; ++j) {
                 zpl_thread_queue *q = &pool->queues[j];
                 if (zpl_jobs_empty(pool, (zpl_jobs_priority)j)) {
-                    last_empty = (j+1 == ZPL_JOBS_MAX_PRIORITIES);
                     continue;
                 }
-                if (!last_empty && ((pool->counter++ % q->chance) != 0)) {
+                if ((round % q->chance) != 0) {
                     continue;
                 }
 
-                last_empty = false;
                 tw->job = *zpl__jobs_ring_get(&q->jobs);
                 zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_READY);
 #            ifdef ZPL_JOBS_DEBUG
-- 
2.43.0


From 67b26c1f91ccdd0a74a567d194d509d53111d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 093/137] fix: mutex: report success as true on POSIX as on
 Windows

zpl_mutex_init, zpl_mutex_destroy and zpl_mutex_try_lock are zpl_b32 functions
but returned the pthread error code, so that a try-lock that took the lock
said false and one that did not said true.
---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From cf978795bde22ba87674e37f2d25b1a8ead12913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 094/137] fix: thread: report a thread that could not be
 created

zpl_thread_start returned pthread_create's error code, which reads as true,
left the attributes allocated and could leave a handle zpl_thread_destroy
would join.
---
 code/source/threading/thread.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..e69d2a7 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -79,11 +79,12 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
-        zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        int res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From a2c043bd3e9610bd2a77a7051501f24c7690b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 095/137] fix: atomic: spin locks and try_acquire_lock never
 locked anything

They called compare_exchange(a, 1, 0), that is expected 1 and desired 0: the
free lock was left at 0 and reported as acquired, and anybody else could acquire
it too. Go from 0 to 1 instead.
---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 66950c268acfaa97026ffec2e22f491c9cc4d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 096/137] fix: atomic: compare_exchange returns the previous
 value on every CPU

The generic branch returned whether the exchange took place, while the x86 and
MSVC branches, and the callers in this file, use the previous value.
---
 code/source/threading/atomic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..43ad34d 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -346,7 +346,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: The previous value in either case
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -374,7 +375,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; // NOTE: The previous value in either case
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0


From 1fbc52dc24ea8753037a81561407680ed84f019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 097/137] fix: math: multiply 2x2 and 3x3 matrices with vectors
 by columns

The matrices are column-major (zpl_mat*_mul and zpl_mat4_mul_vec4 treat them so),
but mat2/mat3 times a vector used the rows: (A*B)*v was not A*(B*v).
---
 code/source/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..2616ad4 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -628,8 +628,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -711,9 +711,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
-- 
2.43.0


From b2fe215083723c87b5350c64e4d60d39af4c15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 098/137] fix: math: the inverse of a 3x3 matrix came out
 transposed

The cofactors were stored without transposing them, so that m times its inverse
was the identity for symmetric matrices only.
---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 2616ad4..1c2a76f 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -732,13 +732,13 @@ void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
-- 
2.43.0


From 05cf3569796e53755f2939276272ddd6725cbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 099/137] fix: math: copying a 2x2 matrix overran it

zpl_mat2_copy copied the size of a 3x3 matrix.
---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 1c2a76f..9cf71ab 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -588,7 +588,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
-- 
2.43.0


From 5053de03628b532b164c6771e4b9bf24b0718bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 100/137] fix: math: refraction follows Snell's law

The normal's share is eta*dot(n,i) + sqrt(k), not their product; and total
reflection multiplied a NaN by zero instead of giving the zero vector.
---
 code/source/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 9cf71ab..563f8f6 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -554,10 +554,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec2f_zero();
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -566,10 +569,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec3f_zero();
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
-- 
2.43.0


From d8241fcab63165cdfb3fd5c9596047c84ecfc1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 101/137] fix: math: roll and pitch of a quaternion

The factor two belongs to both products.
---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 563f8f6..1c011ee 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1243,10 +1243,10 @@ zpl_f32 zpl_quat_angle(zpl_quat q) {
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
 zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
 
-- 
2.43.0


From 6b4492c336555b2c620451112fd7d13fa70023b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 102/137] fix: math: the axis of a quaternion that is not a
 unit quaternion

zpl_quat_axis normalised the quaternion but took the angle from the original.
---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 1c011ee..2a75906 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1232,7 +1232,7 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
-- 
2.43.0


From 1418a230bd17e7a67d7231138fdda8dc5a7b1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 103/137] fix: math: slerp between equal rotations gave NaN

For equal quaternions the angle is zero, and the result of the lerp meant for
that case was overwritten by a division by sin(0).
---
 code/source/math.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 2a75906..3353e00 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1613,9 +1613,10 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
         cos_theta = -cos_theta;
     }
 
-    if (cos_theta > 1.0f) {
+    if (cos_theta >= 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
-- 
2.43.0


From 6543c47ad68c74267e4d657548f189e8a3dbad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 104/137] fix: math: perspective_dx must map the near plane to
 depth 0

The translation term lacked the factor z_far.
---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 3353e00..b0f91dc 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1057,7 +1057,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = -(z_near * z_far) / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
-- 
2.43.0


From 0f774474467b14b337579e0b15881c6bcce92baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 105/137] fix: math: the planes of a frustum

The planes were built from camera*proj instead of proj*camera, from column
entries instead of the rows of the product, so that points in view were reported
as outside and the other way round.
---
 code/source/math.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index b0f91dc..3a248f3 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1363,16 +1363,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1384,9 +1384,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1397,10 +1397,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1411,10 +1411,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1425,10 +1425,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1439,10 +1439,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
-- 
2.43.0


From 177a0101c8adc7f805c742fbaf301fccea58f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 106/137] fix: math: contracting a box compares its sides

zpl_aabb2_contract decided that nothing was left by comparing the corners'
distances from the origin, so that boxes left of or below it vanished, even when
expanded, and inverted boxes were returned.
---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 3a248f3..9ecf3d5 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1825,7 +1825,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From 9ed8f13094898ac3e88f46706a30e5def797238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 107/137] fix: math: floor, ceil and round of whole and of
 large numbers

floor(-1) was -2, ceil(1) was 2, ceil(-1) was -1 only by luck of the truncation,
and round(x + 0.5) lost the last bit of numbers that have no fraction. Truncate,
and correct by one where the truncation went the wrong way; round on the
remaining fraction.
---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 9ecf3d5..9f258fd 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -60,9 +60,9 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+zpl_f64 zpl_floor64(zpl_f64 x)                { zpl_f64 t = cast(zpl_f64)(cast(zpl_i64) x); return (t > x) ? t - 1.0 : t; }
+zpl_f64 zpl_ceil64(zpl_f64 x)                 { zpl_f64 t = cast(zpl_f64)(cast(zpl_i64) x); return (t < x) ? t + 1.0 : t; }
+zpl_f64 zpl_round64(zpl_f64 x)                { zpl_f64 t = cast(zpl_f64)(cast(zpl_i64) x); return (x - t >= 0.5) ? t + 1.0 : (t - x >= 0.5) ? t - 1.0 : t; }
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -255,9 +255,9 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+zpl_f32 zpl_round(zpl_f32 x) { zpl_f32 t = (zpl_f32)(int)x; return (x - t >= 0.5f) ? t + 1.0f : (t - x >= 0.5f) ? t - 1.0f : t; }
+zpl_f32 zpl_floor(zpl_f32 x) { zpl_f32 t = (zpl_f32)(int)x; return (t > x) ? t - 1.0f : t; }
+zpl_f32 zpl_ceil(zpl_f32 x)  { zpl_f32 t = (zpl_f32)(int)x; return (t < x) ? t + 1.0f : t; }
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
-- 
2.43.0


From 2fa16b10ec2104439e7722118101f7b2813b0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 108/137] fix: math: zpl_mod and zpl_mod64 add the divisor to
 negative remainders only

They added it to the positive ones (zpl_mod) or to all of them (zpl_mod64), so
that mod(1, 4) was 5; zpl_angle_diff gave angles outside a turn for it.
---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 9f258fd..2ac2534 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -71,7 +71,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
-- 
2.43.0


From 900240e75815bf1828b1b75744aea3fbaf2e35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 109/137] fix: socket: pass a length to getsockname and
 recvfrom, not a size cast to a pointer

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..8e6de2b 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 36f9934be8f2a8f7ef759f8f90d15d36ebf215f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 110/137] fix: socket: close the descriptor when creating a
 socket fails

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 8e6de2b..39d577d 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -67,6 +67,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -76,11 +77,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 #   if defined(ZPL_SYSTEM_WINDOWS)
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
@@ -89,6 +92,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
 
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+            zpl_socket_close(sock);
             freeaddrinfo(result);
             return -1;
         }
-- 
2.43.0


From 59a1b58c11293f68807eec723e4f5450c7512a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 111/137] fix: socket: report a send to a closed peer as -1
 instead of raising SIGPIPE

---
 code/source/socket.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 39d577d..e812dfa 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -17,6 +17,12 @@ typedef int socklen_t;
 #   endif
 #endif
 
+#if defined(MSG_NOSIGNAL)
+#   define ZPL__SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+#   define ZPL__SOCKET_SEND_FLAGS 0
+#endif
+
 ZPL_DEF zpl_socket zpl_socket_init(void) {
 #   if defined(ZPL_SYSTEM_WINDOWS)
     WSADATA winsock_data = {0};
@@ -151,7 +157,7 @@ ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, z
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send(zpl_socket socket, const char *data, zpl_i32 size) {
-    return send(socket, data, size, 0);
+    return send(socket, data, size, ZPL__SOCKET_SEND_FLAGS);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size) {
@@ -159,7 +165,7 @@ ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, const char *data, zpl_i32 size) {
-    return sendto(socket, data, size, 0, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
+    return sendto(socket, data, size, ZPL__SOCKET_SEND_FLAGS, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-- 
2.43.0


From 8631cca4291507c7ca40e6bcfa8a49d19c8fdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 112/137] fix: array: keep the elements when shrinking fails

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..f58ac0b 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,10 +115,10 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-- 
2.43.0


From cb53430c0e09a459530b1a0644caba4d11863eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 113/137] fix: string: joining returns NULL and leaks nothing
 when memory runs out

---
 code/source/core/stringlib.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index af004cf..bb54519 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -83,16 +83,24 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
 }
 
 ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
-    zpl_string ret;
+    zpl_string ret, next;
     zpl_isize i;
 
     ret = zpl_string_make(a, NULL);
+    if (ret == NULL) return NULL;
 
     for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+        next = zpl_string_appendc(ret, parts[i]);
+        if (next != NULL) ret = next;
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next != NULL && (i+1) < count) {
+            next = zpl_string_appendc(ret, glue);
+            if (next != NULL) ret = next;
+        }
+
+        if (next == NULL) {
+            zpl_string_free(ret);
+            return NULL;
         }
     }
 
-- 
2.43.0


From 69b72e6af6fc4b88db2d67354f12510aeaf1e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 114/137] fix: memory streams: free the descriptor when its
 buffer can't be allocated

---
 code/source/core/file_stream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index cc7d807..8465fae 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -46,7 +46,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cursor = 0;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -65,7 +68,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->flags = flags;
     d->cursor = 0;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
-- 
2.43.0


From 7fcdd9dad29842a5cd3cf2b6c83d4c0dfa991328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 115/137] fix: memory streams: a write past the end that fails
 leaves the content alone

---
 code/source/core/file_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 8465fae..25688b8 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -127,8 +127,8 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl_isize buflen = d->cap;
     if (offset > buflen && size > 0 && (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE)) {
         // NOTE: writing past the end leaves a gap of zeros
-        if (zpl_array_capacity(d->buf) < offset) {
-            if (!zpl_array_grow(d->buf, (zpl_i64)(offset))) return false;
+        if (zpl_array_capacity(d->buf) < offset + size) {
+            if (!zpl_array_grow(d->buf, (zpl_i64)(offset + size))) return false;
         }
         zpl_memset(d->buf + buflen, 0, offset - buflen);
         d->cap = zpl_array_count(d->buf) = buflen = offset;
-- 
2.43.0


From 93c98d0d743595f351ac907898b59ba6bd589e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 116/137] fix: heap analysis: a refused allocation stays NULL
 and isn't counted

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index eeb7eac..8a5bf4f 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -145,7 +145,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
+        if (type == ZPL_ALLOCATION_ALLOC && ptr) {
             zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
-- 
2.43.0


From 52a736b37f1abd76c6cabcd59adbd0899c4f8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 117/137] fix: adt: keep the node when its branch can't be
 allocated

---
 code/source/adt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 23afea8..47ecc0b 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -22,12 +22,14 @@ zpl_u8 zpl_adt_make_branch(zpl_adt_node *node, zpl_allocator backing, char const
         type = ZPL_ADT_TYPE_ARRAY;
     }
     zpl_adt_node *parent = node->parent;
+    zpl_adt_node *nodes = NULL;
+    if (!zpl_array_init(nodes, backing))
+        return ZPL_ADT_ERROR_OUT_OF_MEMORY;
     zpl_zero_item(node);
     node->type = type;
     node->name = name;
     node->parent = parent;
-    if (!zpl_array_init(node->nodes, backing))
-        return ZPL_ADT_ERROR_OUT_OF_MEMORY;
+    node->nodes = nodes;
     return 0;
 }
 
-- 
2.43.0


From 04913c7dc4abffff55c3d5867a17769bcda3e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 118/137] fix: adt: a value lookup finds nothing when its
 stream can't be opened

---
 code/source/adt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 47ecc0b..3426e07 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -91,7 +91,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
             zpl_file tmp;
 
             /* allocate a file descriptor for a memory-mapped number to string conversion, input source buffer is not cloned, however. */
-            zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE);
+            if (!zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE)) return NULL;
             zpl_adt_print_number(&tmp, node);
 
             zpl_isize fsize=0;
-- 
2.43.0


From 68563f2e2cbbe145d5396c2dc029ff870efd42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 119/137] fix: uri: report running out of memory

---
 code/source/parsers/uri.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index f644615..b166fd1 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -36,9 +36,12 @@ zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin)) {
+        zpl_adt_destroy_branch(root);
+        return ZPL_URI_ERROR_INTERNAL;
+    }
     return err_code;
 }
 
@@ -49,7 +52,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_INTERNAL;
     
     char *p = text, *b = p;
 
@@ -63,7 +67,10 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b)) {
+            zpl_adt_destroy_branch(root);
+            return ZPL_URI_ERROR_INTERNAL;
+        }
         
         if (!c) {
             // NOTE(zaklaus): URI has no query params, bail
@@ -96,12 +103,20 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) {
+                zpl_adt_destroy_branch(root);
+                return ZPL_URI_ERROR_INTERNAL;
+            }
             zpl_adt_node number = *obj;
             zpl_adt_str_to_number_strict(&number);
             /* an integer that may not fit stays as text */
             if (number.type != ZPL_ADT_TYPE_INTEGER || zpl_strlen(field_value) <= 18) *obj = number;
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) {
+                zpl_adt_destroy_branch(root);
+                return ZPL_URI_ERROR_INTERNAL;
+            }
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
-- 
2.43.0


From 08947da97204249d96b094f5c40fe1c69efb4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 120/137] fix: csv: report running out of memory

---
 code/source/parsers/csv.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4fca967..c379d0a 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -21,7 +21,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) return ZPL_CSV_ERROR_INTERNAL;
     char *p = text, *b = p, *e = p;
     zpl_isize colc = 0, total_colc = 0, rowc = 0;
 
@@ -111,10 +111,16 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (!zpl_adt_append_arr(root, NULL)) {
+                err = ZPL_CSV_ERROR_INTERNAL;
+                return err;
+            }
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) {
+            err = ZPL_CSV_ERROR_INTERNAL;
+            return err;
+        }
 
         if (d == delim) {
             colc++;
-- 
2.43.0


From 98181c36d73dda96621e9e003260fdae898c751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 121/137] fix: files: opening and whole-file reads fail cleanly
 when memory runs out

---
 code/header/core/string.h | 10 +++++++---
 code/source/core/file.c   | 27 +++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 8698cef..180e696 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -438,11 +438,11 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
         if (*pd == '\0') { // NOTE: last line without a line ending
-            zpl_array_append(lines, p);
+            if (!zpl_array_append(lines, p)) goto out_of_memory;
             break;
         }
         if (*pd == '\n') {
@@ -452,12 +452,16 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
                 p = ++pd;
                 continue;
             }
-            zpl_array_append(lines, p);
+            if (!zpl_array_append(lines, p)) goto out_of_memory;
             p = pd + 1;
         }
         ++pd;
     }
     return lines;
+
+out_of_memory:
+    zpl_array_free(lines);
+    return NULL;
 }
 
 ZPL_END_C_DECLS
diff --git a/code/source/core/file.c b/code/source/core/file.c
index 73936a9..e059e0f 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -242,6 +242,7 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
     f->dir = NULL;
     f->last_write_time = 0;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
+    if (!f->filename) return ZPL_FILE_ERROR_UNKNOWN;
     zpl_memcopy(cast(char *) f->filename, cast(char *) filename, len + 1);
 
     return err;
@@ -256,7 +257,13 @@ zpl_file_error zpl_file_open_mode(zpl_file *f, zpl_file_mode mode, char const *f
 #else
     err = zpl__posix_file_open(&f->fd, &f->ops, mode, filename);
 #endif
-    if (err == ZPL_FILE_ERROR_NONE) return zpl_file_new(f, f->fd, f->ops, filename);
+    if (err == ZPL_FILE_ERROR_NONE) {
+        err = zpl_file_new(f, f->fd, f->ops, filename);
+        if (err != ZPL_FILE_ERROR_NONE) {
+            zpl_file_close(f);
+            *f = file_;
+        }
+    }
     return err;
 }
 
@@ -451,6 +458,10 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
+            if (!result.data) {
+                zpl_file_close(&file);
+                return result;
+            }
             result.size = file_size;
             zpl_file_read_at(&file, result.data, result.size, 0);
             if (zero_terminate) {
@@ -499,11 +510,19 @@ char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char con
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
-    contents[fsize] = 0;
-    *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    *lines = NULL;
+    if (contents) {
+        zpl_file_read(&f, contents, fsize);
+        contents[fsize] = 0;
+        *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    }
     zpl_file_close(&f);
 
+    if (contents && !*lines) {
+        zpl_free(alloc, contents);
+        contents = NULL;
+    }
+
     return contents;
 }
 
-- 
2.43.0


From 84599536ac0aa585e309c88e486a01e6a1d2f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 122/137] fix: text helpers: return NULL when memory runs out

---
 code/header/essentials/memory_custom.h | 1 +
 code/source/core/file_misc.c           | 6 ++++--
 code/source/core/print.c               | 2 +-
 code/source/hashing.c                  | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index a46e295..ea438bf 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (result == NULL) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index d4b6863..0e3e18e 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -223,8 +223,10 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
+    if (result != NULL) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
     free(p);
 
     return result;
diff --git a/code/source/core/print.c b/code/source/core/print.c
index 193a4e2..0416d09 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -30,7 +30,7 @@ zpl_isize zpl_asprintf_va(zpl_allocator allocator, char **buffer, char const *fm
     zpl_isize res;
     res = zpl_snprintf_va(tmp, zpl_size_of(tmp), fmt, va);
     *buffer = zpl_alloc_str(allocator, tmp);
-    return res;
+    return *buffer ? res : -1;
 }
 
 zpl_isize zpl_printf(char const *fmt, ...) {
diff --git a/code/source/hashing.c b/code/source/hashing.c
index 102bac8..daa7200 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -258,6 +258,7 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (ret == NULL) return NULL;
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
@@ -305,8 +306,7 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
 
     alen = zpl__base64_decoded_size(s, len);
     ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
+    if (ret == NULL) return NULL;
 
     ret[alen] = 0;
 
-- 
2.43.0


From eb405294a48d4663d51b7bc45b7efa9a7085a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 123/137] fix: regex: compiling reports running out of memory

---
 code/source/regex.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index f01561c..3cb3b04 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -369,7 +369,9 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -394,7 +396,9 @@ static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, c
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
@@ -736,6 +740,10 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->buf_len = 0;
     re->buf_cap = cap;
     re->can_realloc = 1;
+    if (!re->buf) {
+        re->buf_cap = 0;
+        return ZPL_RE_ERROR_INTERNAL_FAILURE;
+    }
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
 
-- 
2.43.0


From 1ac6f02dfa7578e82a70af2f2e844414fed43222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 124/137] fix: directories: listing and packing fail cleanly
 when memory runs out

---
 code/source/core/file_misc.c | 17 +++++++++++++----
 code/source/core/file_tar.c  |  6 +++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0e3e18e..8b45c40 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -309,11 +309,18 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
-            zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
+            char const *parts[3] = { dirname, "/", dir->d_name };
+            zpl_string dirpath = zpl_string_join(alloc, parts, 3, "");
+            zpl_string grown = dirpath ? zpl_string_make_space_for(*output, zpl_string_length(dirpath) + 1) : NULL;
+
+            if (grown == NULL) {
+                zpl_string_free(dirpath);
+                zpl_string_free(*output);
+                *output = NULL;
+                break;
+            }
 
-            *output = zpl_string_appendc(*output, dirpath);
+            *output = zpl_string_appendc(grown, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
             if (recurse && dir->d_type == DT_DIR && (cd = opendir(dirpath)) != NULL) {
@@ -321,6 +328,7 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
                 zpl__file_direntry(alloc, dirpath, output, recurse);
             }
             zpl_string_free(dirpath);
+            if (*output == NULL) break;
         }
         closedir(d);
     }
@@ -375,6 +383,7 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
 
 zpl_string zpl_path_dirlist(zpl_allocator alloc, char const *dirname, zpl_b32 recurse) {
     zpl_string buf = zpl_string_make_reserve(alloc, 4);
+    if (buf == NULL) return NULL;
     zpl__file_direntry(alloc, dirname, &buf, recurse);
     return buf;
 }
diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 3cbf0de..77e3f5b 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -108,7 +108,11 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
-    char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+    char const **files = filelst ? cast(char const**)zpl_str_split_lines(alloc, filelst, false) : NULL;
+    if (!files) {
+        zpl_string_free(filelst);
+        return -(ZPL_TAR_ERROR_IO_ERROR);
+    }
     for (zpl_isize i = zpl_array_count(files) - 1; i >= 0; i--) {
         if (zpl_fs_get_type(files[i]) == ZPL_DIR_TYPE_FOLDER) zpl_array_remove_at(files, i);
     }
-- 
2.43.0


From 11bf7ab0c0f9d1d0157d39bf496e58468c861a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:45 +0000
Subject: [PATCH 125/137] fix: uri: writing reports failed writes, a string is
 written whole or not at all

---
 code/header/parsers/uri.h |  2 +-
 code/source/parsers/uri.c | 41 ++++++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index f490d1c..95d8aad 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -12,7 +12,7 @@ typedef enum zpl_uri_error {
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
 ZPL_DEF zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a);
-ZPL_DEF void zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
+ZPL_DEF zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
 ZPL_DEF zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj);
 ZPL_DEF void zpl_uri_free(zpl_adt_node *obj);
 
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index b166fd1..00e2f92 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -131,6 +131,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     return err_code;
 }
 
+#define zpl__uri_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return ZPL_ADT_ERROR_OUT_OF_MEMORY;                              \
+} while (0)
+
 zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     ZPL_ASSERT_NOT_NULL(file);
     
@@ -145,19 +150,21 @@ zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     while (*p) {
         ch = (zpl_u8) *p++;
         if (ch == ' ') {
-            zpl_fprintf(file, "%s", "+");
+            zpl__uri_fprintf(file, "%s", "+");
         } else if (zpl_char_is_alphanumeric(ch) || zpl_strchr("-_.~", ch)) {
-            zpl_fprintf(file, "%c", ch);
+            zpl__uri_fprintf(file, "%c", ch);
         } else {
             zpl_snprintf(buf, zpl_size_of(buf), "%02X", ch);
-            zpl_fprintf(file, "%c%s", '%', buf);
+            zpl__uri_fprintf(file, "%c%s", '%', buf);
         }
     }
     
     return ZPL_ADT_ERROR_NONE;
 }
 
-void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
+#undef zpl__uri_fprintf
+
+zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     ZPL_ASSERT_NOT_NULL(f);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
@@ -168,35 +175,37 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_file_write(f, origin->string, zpl_strlen(origin->string));
+            if (!zpl_file_write(f, origin->string, zpl_strlen(origin->string))) return false;
         }
     }
     
 	// NOTE(zaklaus): write params
 	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
+    	if (zpl_fprintf(f, "%s", "?") < 0) return false;
     
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
-        zpl__uri_print_str(f, n->name);
+        if (zpl__uri_print_str(f, n->name)) return false;
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
-            zpl_fprintf(f, "%c", '=');
-            zpl__uri_print_str(f, n->string);
+            if (zpl_fprintf(f, "%c", '=') < 0) return false;
+            if (zpl__uri_print_str(f, n->string)) return false;
         } else if (n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL) {
            if (n->props != ZPL_ADT_PROPS_TRUE) {
-                zpl_fprintf(f, "%c", '=');
+                if (zpl_fprintf(f, "%c", '=') < 0) return false;
                 // TODO: ensure the output is URI-encoded
-                zpl_adt_print_number(f, n);
+                if (zpl_adt_print_number(f, n)) return false;
            } 
         }
         
         if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
+            if (zpl_fprintf(f, "%s", "&") < 0) return false;
         }
     }
+
+    return true;
 }
 
 void zpl_uri_free(zpl_adt_node *obj) {
@@ -205,8 +214,12 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_uri_write(&tmp, obj);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (!zpl_uri_write(&tmp, obj)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From a313334495fc4d0477e5c66f6a8e08f8b3d1d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:45 +0000
Subject: [PATCH 126/137] fix: csv: writing reports failed writes, a string is
 written whole or not at all

---
 code/header/parsers/csv.h |  8 +++---
 code/source/parsers/csv.c | 57 ++++++++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index bd29059..2c7a777 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -16,9 +16,9 @@ ZPL_DEF_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloca
 ZPL_DEF zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim);
 ZPL_DEF void zpl_csv_free(zpl_csv_object *obj);
 
-ZPL_DEF_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
+ZPL_DEF_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
 ZPL_DEF_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj);
-ZPL_DEF void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
+ZPL_DEF zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
 ZPL_DEF zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delim);
 
 /* inline */
@@ -27,8 +27,8 @@ ZPL_IMPL_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloc
     return zpl_csv_parse_delimiter(root, text, allocator, has_header, ',');
 }
 
-ZPL_IMPL_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
-    zpl_csv_write_delimiter(file, obj, ',');
+ZPL_IMPL_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
+    return zpl_csv_write_delimiter(file, obj, ',');
 }
 
 ZPL_IMPL_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj) {
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index c379d0a..1dae4e8 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -174,28 +174,27 @@ static zpl_b32 zpl__csv_needs_quotes(char const *text, char delimiter, zpl_b32 a
     return zpl_char_is_space(*(text-1));
 }
 
-static void zpl__csv_write_quoted(zpl_file *file, zpl_csv_object *node) {
-    zpl_fprintf(file, "\"");
-    zpl_adt_print_string(file, node, "\"", "\"");
-    zpl_fprintf(file, "\"");
+static zpl_b8 zpl__csv_write_quoted(zpl_file *file, zpl_csv_object *node) {
+    if (zpl_fprintf(file, "\"") < 0) return false;
+    if (zpl_adt_print_string(file, node, "\"", "\"")) return false;
+    return zpl_fprintf(file, "\"") >= 0;
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter, zpl_b32 alone) {
+zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter, zpl_b32 alone) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
             if (node->string && zpl__csv_needs_quotes(node->string, delimiter, alone)) {
-                zpl__csv_write_quoted(file, node);
-                break;
+                return zpl__csv_write_quoted(file, node);
             }
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__csv_write_quoted(file, node);
-                } break;
+                    return zpl__csv_write_quoted(file, node);
+                }
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    if (node->string && *node->string) zpl_file_write(file, node->string, zpl_strlen(node->string));
+                    if (node->string && *node->string) return zpl_file_write(file, node->string, zpl_strlen(node->string)) != 0;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
@@ -204,54 +203,62 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delimiter,
 
         case ZPL_ADT_TYPE_REAL:
         case ZPL_ADT_TYPE_INTEGER: {
-            zpl_adt_print_number(file, node);
-        } break;
+            return zpl_adt_print_number(file, node) == ZPL_ADT_ERROR_NONE;
+        }
     }
+
+    return true;
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delimiter, zpl_b32 alone) {
+zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delimiter, zpl_b32 alone) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp, delimiter, alone);
+    return zpl__csv_write_record(file, &temp, delimiter, alone);
 }
 
-void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
+zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->nodes);
     zpl_isize cols = zpl_array_count(obj->nodes);
-    if (cols == 0) return;
+    if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
-    if (rows == 0 && !has_headers) return;
+    if (rows == 0 && !has_headers) return true;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i], delimiter, cols == 1);
+            if (!zpl__csv_write_header(file, &obj->nodes[i], delimiter, cols == 1)) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                if (zpl_fprintf(file, "%c", delimiter) < 0) return false;
             }
         }
-        zpl_fprintf(file, "\n");
+        if (zpl_fprintf(file, "\n") < 0) return false;
     }
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter, cols == 1);
+            if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter, cols == 1)) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                if (zpl_fprintf(file, "%c", delimiter) < 0) return false;
             }
         }
-        zpl_fprintf(file, "\n");
+        if (zpl_fprintf(file, "\n") < 0) return false;
     }
+
+    return true;
 }
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
-    zpl_csv_write_delimiter(&tmp, obj, delimiter);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
+    if (!zpl_csv_write_delimiter(&tmp, obj, delimiter)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 981c2284bd43667d2319ecaab57b350c92d526ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:14 +0000
Subject: [PATCH 127/137] fix: virtual memory: trimming gives back the pages
 behind the part that is kept

---
 code/source/core/memory_virtual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..8420ab4 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -95,7 +95,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
-- 
2.43.0


From ae28e57bcdfd9f569db26d3c7452bde1b6f5d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:14 +0000
Subject: [PATCH 128/137] fix: virtual memory: purging reports success when it
 succeeded

---
 code/source/core/memory_virtual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 8420ab4..710b55a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -101,7 +101,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From 1a37b4734e824781e13715d04c6ae1df26351f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:14 +0000
Subject: [PATCH 129/137] fix: virtual memory: a failed allocation has no data

---
 code/source/core/memory_virtual.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 710b55a..e83aacc 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -77,6 +77,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         zpl_virtual_memory vm;
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
+        if (vm.data == MAP_FAILED) return zpl_vm(NULL, 0);
         vm.size = size;
         return vm;
     }
-- 
2.43.0


From 7ccdccea2555e5381e23b35cdfda0e79686541c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:14 +0000
Subject: [PATCH 130/137] fix: virtual memory: freeing reports a region that
 was not freed

---
 code/source/core/memory_virtual.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index e83aacc..9a6308a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -83,8 +83,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
-- 
2.43.0


From 298384d42d3c4c6d29426abe81edcf7b92b075a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 131/137] fix: time: a sleep that a signal cuts short is
 carried on

---
 code/source/core/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..aa26500 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -206,7 +206,7 @@ ZPL_BEGIN_C_DECLS
     void zpl_sleep_ms(zpl_u32 ms) {
         struct timespec req = { cast(time_t)(ms * 1e-3), cast(long)((ms % 1000) * 1e6) };
         struct timespec rem = { 0, 0 };
-        nanosleep(&req, &rem);
+        while (nanosleep(&req, &rem) != 0 && errno == EINTR) req = rem;
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
-- 
2.43.0


From e3630113e770d47b68e9ec2b0bed310f22da0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 132/137] fix: time: local time follows the offset of the zone,
 whatever its daylight saving

---
 code/source/core/time.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index aa26500..7781188 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -210,13 +210,15 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
-        struct tm t;
-        zpl_u64 result = zpl_time_utc_ms() - ZPL__UNIX_TO_WIN32_EPOCH;
-        zpl_u16 ms = result % 1000;
-        result *= 1e-3;
-        localtime_r((const time_t*)&result, &t);
-        result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        struct tm t, u;
+        zpl_u64 utc = zpl_time_utc_ms();
+        time_t now = cast(time_t)((utc - ZPL__UNIX_TO_WIN32_EPOCH) / 1000);
+        zpl_i64 days, offset;
+        localtime_r(&now, &t);
+        gmtime_r(&now, &u);
+        days = t.tm_year != u.tm_year ? t.tm_year - u.tm_year : t.tm_yday - u.tm_yday;
+        offset = ((days * 24 + t.tm_hour - u.tm_hour) * 60 + t.tm_min - u.tm_min) * 60 + t.tm_sec - u.tm_sec;
+        return utc + offset * 1000;
     }
 #endif
 
-- 
2.43.0


From 84cfd24a4649a4a2a6ad779779f7c87faefec1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:14 +0000
Subject: [PATCH 133/137] fix: bits: every one of the thirty-two bits can be
 asked for and set

---
 code/header/core/misc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..a28d840 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -58,9 +58,9 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
     return x + 1;
 }
 
-ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
-ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
+ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1u << bit); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1u << bit)) != 0; }
+ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1u << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
     zpl_isize count = 0;
-- 
2.43.0


From 69095b6b2d59c68617bd73e532f8d808e2711064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 134/137] fix: documents: a second 0x is no part of a
 hexadecimal number

---
 code/source/adt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 3426e07..2c3dd0c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -414,8 +414,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     if (*e == '0' && zpl_char_to_lower(*(e+1)) == 'x' && zpl_char_is_hex_digit(*(e+2))) {
         node_props = ZPL_ADT_PROPS_IS_HEX;
         e += 2;
-        integer = (zpl_i64)zpl_str_to_u64(e, 0, 16);
-        while (zpl_char_is_hex_digit(*e)) ++e;
+        while (zpl_char_is_hex_digit(*e)) integer = (zpl_i64)(((zpl_u64)integer << 4) | (zpl_u64)zpl_hex_digit_to_int(*e++));
         if (neg) integer = (zpl_i64)(0 - (zpl_u64)integer);
         neg_zero = neg && integer == 0;
     } else {
-- 
2.43.0


From 8503b099becf544c6b7f614fc7ccc1b36065ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:11 +0000
Subject: [PATCH 135/137] fix: define zpl_file_connect_handle on POSIX systems
 too

---
 code/source/core/file.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index e059e0f..59d4efd 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -395,6 +395,18 @@ zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
     return &zpl__std_files[std];
 }
 
+void zpl_file_connect_handle(zpl_file *file, void *handle) {
+    ZPL_ASSERT_NOT_NULL(file);
+
+    if (file->is_temp)
+        return;
+
+    zpl_zero_item(file);
+
+    file->fd.i = cast(int)cast(zpl_intptr)handle;
+    file->ops = zpl_default_file_operations;
+}
+
 zpl_file_error zpl_file_truncate(zpl_file *f, zpl_i64 size) {
     zpl_file_error err = ZPL_FILE_ERROR_NONE;
     int i = ftruncate(f->fd.i, size);
-- 
2.43.0


From 4b059c310463445cb31818502d45ad160c13b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:17 +0000
Subject: [PATCH 136/137] fix: keep zpl_string_appendc and zpl_string_join in
 an optimised C++ build

---
 code/source/core/stringlib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index bb54519..ac9cf03 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -78,11 +78,11 @@ zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize
     return str;
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *other) {
+zpl_string zpl_string_appendc(zpl_string str, const char *other) {
     return zpl_string_append_length(str, other, zpl_strlen(other));
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
+zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
     zpl_string ret, next;
     zpl_isize i;
 
-- 
2.43.0


From 975762898aaf18c3c7e4d8cf9c2bc6b01242b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:11 +0000
Subject: [PATCH 137/137] fix: reading from a pipe or the standard input on
 POSIX

---
 code/source/core/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 59d4efd..11bdd44 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -174,6 +174,8 @@ ZPL_BEGIN_C_DECLS
     zpl_internal ZPL_FILE_READ_AT_PROC(zpl__posix_file_read) {
         zpl_unused(stop_at_newline);
         zpl_isize res = pread(fd.i, buffer, size, offset);
+        // NOTE: Pipes et al. have no offsets to read at
+        if (res < 0 && errno == ESPIPE) res = read(fd.i, buffer, size);
         if (res < 0) return false;
         if (bytes_read) *bytes_read = res;
         return true;
-- 
2.43.0

