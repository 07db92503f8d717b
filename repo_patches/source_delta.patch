From 0d868e30fae12ba964168d35c0c3238808faf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 01/64] fix: array: refuse element counts whose byte size
 overflows

A push, resize or reserve of a huge count made count * cells wrap around
before it reached the allocator: array_reqsize() then either tripped
BFDEV_BUG_ON() or returned 0, and a realloc to 0 bytes freed the buffer
while array->data kept pointing at it.
---
 src/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array.c b/src/array.c
index 2088850..43919c1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -46,6 +46,9 @@ array_apply(bfdev_array_t *array, unsigned long count)
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
+    if (bfdev_unlikely(count > BFDEV_SSIZE_MAX / array->cells))
+        return -BFDEV_EOVERFLOW;
+
     reqsize = array_reqsize(array, count);
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
-- 
2.43.0


From 87dec79ebd8b95acdb06916262fd5026124b4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 02/64] fix: array: do not truncate large element counts to int

bfdev_max() converts its second operand to the type of the first, so
bfdev_max(BFDEV_ARRAY_MSIZE, count) narrowed count to int and a request
for 2^31 elements or more tripped BFDEV_BUG_ON() instead of being passed
to the allocator.
---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 43919c1..732075f 100644
--- a/src/array.c
+++ b/src/array.c
@@ -15,7 +15,7 @@ array_reqsize(bfdev_array_t *array, unsigned long count)
     unsigned long request;
     size_t size;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
     size = bfdev_pow2_roundup(request * array->cells);
 
     return size;
-- 
2.43.0


From cf631b3018aee01b92dc7178af98675eed638ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 03/64] fix: btree: stay inside the node for empty trees and
 absent keys

---
 src/btree.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 744c83d..1f9b99d 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -508,7 +508,7 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
 
     value = NULL;
     if (level == 1) {
-        if (bnode_cmp_key(root, node, index, key))
+        if (index == layout->keynum || bnode_cmp_key(root, node, index, key))
             return NULL;
 
         value = bnode_get_value(root, node, index);
@@ -619,7 +619,10 @@ bfdev_btree_last(bfdev_btree_root_t *root, uintptr_t *key)
         node = bnode_get_value(root, node, last);
     }
 
-    last = bnode_fill_index(root, node, 0) - 1;
+    last = bnode_fill_index(root, node, 0);
+    if (bfdev_unlikely(!last--))
+        return NULL;
+
     bnode_takeout_key(root, node, last, key);
     return bnode_get_value(root, node, last);
 }
-- 
2.43.0


From 626f76ea485927b56930d26be0049edf194c8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 04/64] fix: btree: keep the odd entry of a split node in the
 right half

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 1f9b99d..a8ca854 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -405,7 +405,7 @@ insert_level(bfdev_btree_root_t *root, unsigned int level,
         }
 
         if (fill & 1) {
-            bnode_migrate(root, newn, count, node, fill - 1);
+            bnode_migrate(root, node, count, node, fill - 1);
             bnode_clear_index(root, node, fill - 1);
         }
     }
-- 
2.43.0


From 0683b8ce7deff6dfbb0e3748424fe708eb5c268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 05/64] fix: radix: translate offsets back to indices for
 non-power-of-two cells

---
 include/bfdev/radix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 2165537..4277664 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -90,8 +90,8 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
 
     /* object per block */
     num = BFDEV_RADIX_BLOCK / cells;
-    return (offset / num) / BFDEV_RADIX_BLOCK +
-           (offset % num) / cells;
+    return (offset / BFDEV_RADIX_BLOCK) * num +
+           (offset % BFDEV_RADIX_BLOCK) / cells;
 }
 
 #define bfdev_radix_cast(radix) \
-- 
2.43.0


From a9e540e9e96402e9b2d4061f5b775962f36bb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 06/64] fix: radix: keep no empty nodes and clear stale offset
 bits

Leaves and branches left empty by a removal or by a failed allocation
made first()/last()/next()/prev() stop early, return a slot behind the
leaf or trip BFDEV_BUG_ON(); crossing into a sibling branch kept the
lower index bits of the previous one; an offset equal to the capacity
was taken to be inside the tree.
---
 src/radix.c | 139 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 82 insertions(+), 57 deletions(-)

diff --git a/src/radix.c b/src/radix.c
index c29b352..0ac87ad 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -42,7 +42,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
     BFDEV_BUG_ON(level > RADIX_LEVEL_MAX);
 
     /* Directly check capacity overflow */
-    if (bfdev_ilog2(offset) > radix_depth_shift(level))
+    if (bfdev_ilog2(offset) >= radix_depth_shift(level))
         return false;
 
     node = root->node;
@@ -70,7 +70,7 @@ radix_parent(bfdev_radix_root_t *root, uintptr_t offset,
 export void *
 bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int index;
     bool contain;
@@ -89,61 +89,99 @@ bfdev_radix_root_find(bfdev_radix_root_t *root, uintptr_t offset)
     return &node->block[index];
 }
 
-static inline bfdev_radix_node_t *
-radix_extend(bfdev_radix_root_t *root, uintptr_t offset)
+static inline void
+radix_shrink(bfdev_radix_root_t *root)
 {
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node, *successor;
-    unsigned int level;
 
     alloc = root->alloc;
-    for (;;) {
+    while (root->level) {
         node = root->node;
-        level = root->level;
 
-        if (node && bfdev_ilog2(offset) < radix_depth_shift(level))
+        if (node->refcount > 1 || !*node->child)
             break;
 
-        successor = bfdev_zalloc(alloc, sizeof(*successor));
-        if (bfdev_unlikely(!successor))
-            return NULL;
-
-        if (node) {
-            successor->refcount++;
-            root->level++;
-        }
+        successor = *node->child;
+        bfdev_free(alloc, node);
 
         root->node = successor;
-        *successor->child = node;
+        root->level--;
     }
+}
 
-    return node;
+/* Release the empty node at @level and every ancestor it leaves empty */
+static void
+radix_prune(bfdev_radix_root_t *root, struct radix_parent *parents,
+            unsigned int level)
+{
+    const bfdev_alloc_t *alloc;
+    bfdev_radix_node_t *parent;
+
+    alloc = root->alloc;
+    for (; level < root->level; ++level) {
+        bfdev_free(alloc, parents[level].node);
+
+        parent = parents[level + 1].node;
+        parent->child[parents[level + 1].index] = NULL;
+
+        if (--parent->refcount) {
+            radix_shrink(root);
+            return;
+        }
+    }
+
+    bfdev_free(alloc, root->node);
+    root->node = NULL;
+    root->level = 0;
 }
 
-static inline void
-radix_shrink(bfdev_radix_root_t *root)
+static inline bfdev_radix_node_t *
+radix_extend(bfdev_radix_root_t *root, uintptr_t offset)
 {
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node, *successor;
+    unsigned int level;
 
     alloc = root->alloc;
-    while (root->level) {
+    for (;;) {
         node = root->node;
+        level = root->level;
 
-        if (node->refcount > 1 || !*node->child)
+        if (bfdev_ilog2(offset) >= radix_depth_shift(level)) {
+            /* an empty tree starts out at the level it needs */
+            if (!node) {
+                root->level++;
+                continue;
+            }
+        } else if (node)
             break;
 
-        successor = *node->child;
-        bfdev_free(alloc, node);
+        successor = bfdev_zalloc(alloc, sizeof(*successor));
+        if (bfdev_unlikely(!successor)) {
+            if (node)
+                radix_shrink(root);
+            else
+                root->level = 0;
+            return NULL;
+        }
+
+        if (node) {
+            successor->refcount++;
+            root->level++;
+        }
 
         root->node = successor;
-        root->level--;
+        *successor->child = node;
     }
+
+    return node;
 }
 
 export void *
 bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 {
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     const bfdev_alloc_t *alloc;
     bfdev_radix_node_t *node;
     unsigned int level;
@@ -155,14 +193,24 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
     alloc = root->alloc;
     for (level = root->level; level--;) {
         bfdev_radix_node_t **slot, *newn;
+        unsigned int index;
 
-        slot = &node->child[radix_depth_index(level, offset)];
+        index = radix_depth_index(level, offset);
+        parents[level + 1].node = node;
+        parents[level + 1].index = index;
+
+        slot = &node->child[index];
         offset &= BFDEV_BIT_LOW_MASK(radix_depth_shift(level));
 
         if (!*slot) {
             newn = bfdev_zalloc(alloc, sizeof(*newn));
-            if (bfdev_unlikely(!newn))
+            if (bfdev_unlikely(!newn)) {
+                if (node->refcount)
+                    radix_shrink(root);
+                else
+                    radix_prune(root, parents, level + 1);
                 return NULL;
+            }
 
             *slot = newn;
             node->refcount++;
@@ -178,10 +226,9 @@ bfdev_radix_root_alloc(bfdev_radix_root_t *root, uintptr_t offset)
 export int
 bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
-    const bfdev_alloc_t *alloc;
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
-    unsigned int level, index;
+    unsigned int index;
     bool contain;
 
     contain = radix_parent(root, offset, parents);
@@ -195,29 +242,7 @@ bfdev_radix_root_free(bfdev_radix_root_t *root, uintptr_t offset)
     if (!bfdev_bitmap_empty(node->bitmap, BFDEV_RADIX_BLOCK))
         return -BFDEV_ENOERR;
 
-    alloc = root->alloc;
-    for (level = 0; level <= root->level; ++level) {
-        bfdev_radix_node_t *parent;
-
-        if (level && --node->refcount)
-            break;
-
-        /* Do not prune the left most branch */
-        offset &= BFDEV_BIT_HIGH_MASK(radix_depth_shift(level));
-        if (offset < BFDEV_RADIX_BLOCK)
-            break;
-
-        parent = parents[level + 1].node;
-        index = parents[level + 1].index;
-
-        parent->child[index] = NULL;
-        bfdev_free(alloc, node);
-        node = parent;
-    }
-
-    /* Prune the leftmost branch */
-    if (level == root->level)
-        radix_shrink(root);
+    radix_prune(root, parents, 0);
 
     return -BFDEV_ENOERR;
 }
@@ -377,7 +402,7 @@ bfdev_radix_root_last(bfdev_radix_root_t *root, uintptr_t *offsetp)
 export void *
 bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -407,7 +432,7 @@ bfdev_radix_root_next(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            *offsetp &= -((uintptr_t)1 << count << RADIX_ARY_SHIFT);
             *offsetp |= (uintptr_t)index << count;
 
             node = node->child[index];
@@ -432,7 +457,7 @@ finish:
 export void *
 bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
 {
-    struct radix_parent parents[RADIX_LEVEL_MAX];
+    struct radix_parent parents[RADIX_LEVEL_MAX + 1];
     bfdev_radix_node_t *node;
     unsigned int count, index, level;
     bool contain;
@@ -462,7 +487,7 @@ bfdev_radix_root_prev(bfdev_radix_root_t *root, uintptr_t *offsetp)
                 continue;
 
             count = radix_depth_shift(level - 1);
-            *offsetp &= ~((uintptr_t)RADIX_ARY_MASK << count);
+            *offsetp &= -((uintptr_t)1 << count << RADIX_ARY_SHIFT);
             *offsetp |= (uintptr_t)index << count;
 
             node = node->child[index];
-- 
2.43.0


From 975efe6e27fd40967dde1601f8a08c47ad94773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 07/64] fix: skiplist: do not raise the level count before the
 node exists

---
 src/skiplist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..654732a 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,13 +71,12 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
+    bfdev_max_adj(head->curr, level);
     node->key = key;
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
-- 
2.43.0


From 095d3637fc0f89076924ad2f2ce308c460d6d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 08/64] fix: cache: forget references and states on reset

---
 src/cache/cache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache/cache.c b/src/cache/cache.c
index 71ab16a..f32b260 100644
--- a/src/cache/cache.c
+++ b/src/cache/cache.c
@@ -296,6 +296,8 @@ bfdev_cache_reset(bfdev_cache_head_t *head)
 
     for (count = 0; count < head->size; ++count) {
         node = head->nodes[count];
+        node->status = BFDEV_CACHE_FREED;
+        node->refcnt = 0;
         bfdev_list_add(&head->freed, &node->list);
     }
 }
-- 
2.43.0


From a1093ac1dafa4be657dfe16c6da097ee799b6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 09/64] fix: bloom: flush the whole bitmap

---
 src/bloom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..73fa17c 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,7 +57,7 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
+    size = BFDEV_BITS_WORD(bloom->capacity) * sizeof(*bloom->bitmap);
     bfport_memset(bloom->bitmap, 0, size);
 }
 
-- 
2.43.0


From 049d4f7e57fba4833972d796b4c3f0b95632afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 10/64] fix: memalloc: survive huge sizes, let a block stay or
 grow in place when the arena is full

---
 src/memalloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..b6ec424 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,6 +129,10 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
+    /* Check before aligning, which may overflow */
+    if (bfdev_unlikely(size > head->avail))
+        return NULL;
+
     bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
@@ -174,14 +178,14 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
+    if (bfdev_unlikely(resize <= origin))
+        return NULL;
+
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From 891ea696872a2b378d8fe86842394aaa3a2678d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 11/64] fix: allocpool: refuse sizes that wrap the offset

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 627310773e13e223b147cd909ee9d12793f6c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 12/64] fix: levenshtein: initialise the whole first row

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 3f8fe5f5486eb20fba2d2d269f4573b05c3af4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 13/64] fix: respool: unlink resources released by
 release_all()

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From a9008b8b980c268587c59788ee832b48fde63b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 14/64] fix: strndup: copy only what fits and terminate it

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From ed5aaabab14b9cb3187a578f4cf5328d64f9ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 15/64] fix: ratelimit: accept zero as the start of a window

---
 src/ratelimit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index 6908623..5fb0880 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -16,7 +16,8 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->begin))
+    /* Zero is a valid time, no request was counted before the first one */
+    if (bfdev_unlikely(!limit->begin && !limit->passed && !limit->missed))
         limit->begin = current;
 
     if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
-- 
2.43.0


From f121a662ccc767f863c23ac5297f162e47d43b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 16/64] fix: tokenbucket: survive clock steps and long idle
 periods

---
 src/tokenbucket.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..ab9cb7e 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,20 +11,28 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate;
 
     if (!limit->interval)
         return true;
 
-    if (bfdev_unlikely(!limit->last)) {
+    /* Zero is a valid time, no request was counted before the first one */
+    if (bfdev_unlikely(!limit->last && !limit->passed && !limit->missed)) {
         limit->current = limit->capacity;
         limit->last = current;
     }
 
+    /* nothing is generated while the clock goes backwards */
+    if (bfdev_unlikely(bfdev_time_before(current, limit->last)))
+        limit->last = current;
+
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    if (generate < (bfdev_time_t)limit->capacity - limit->current)
+        limit->current += generate;
+    else
+        limit->current = limit->capacity;
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From 02d3188b4bb825e412c162917a2b64f1021dad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 17/64] fix: log: test the end pointer itself

---
 src/log/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/log.c b/src/log/log.c
index efc692c..203e1e6 100644
--- a/src/log/log.c
+++ b/src/log/log.c
@@ -79,7 +79,7 @@ bfdev_log_level(const char *str, const char **endptr)
         }
     }
 
-    if (*endptr)
+    if (endptr)
         *endptr = str;
 
     return level;
-- 
2.43.0


From 09a09223f9ce267c62a55737086d88b9cc35d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 18/64] fix: fsm: keep the state and the stack when a
 transition fails

---
 src/fsm.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fsm.c b/src/fsm.c
index 2ed6531..922d803 100644
--- a/src/fsm.c
+++ b/src/fsm.c
@@ -79,12 +79,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
         }
 
         /*
-         * Pop the stack as the new state, if popping is required
-         * and there have no next state.
+         * Take the new state from the stack, if popping is required
+         * and there have no next state. It stays there until every
+         * callback has accepted the change.
          */
         next = tran->next;
         if (!next && tran->stack < 0) {
-            pstate = bfdev_array_pop(&fsm->stack, -tran->stack);
+            pstate = bfdev_array_peek(&fsm->stack, -tran->stack);
             if (bfdev_unlikely(!pstate))
                 return -BFDEV_EOVERFLOW;
             next = *pstate;
@@ -108,6 +109,13 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
         while (next->entry)
             next = next->entry;
 
+        /* Make sure that the curr state can be pushed later */
+        if (tran->stack > 0) {
+            retval = bfdev_array_reserve(&fsm->stack, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+        }
+
         /*
          * Call the curr state's exit action, if state
          * does not return to itself and the stack
@@ -137,6 +145,10 @@ bfdev_fsm_handle(bfdev_fsm_t *fsm, bfdev_fsm_event_t *event)
                 return retval;
         }
 
+        /* Pop the stack that was used for the new state */
+        if (!tran->next && tran->stack < 0)
+            bfdev_array_pop(&fsm->stack, -tran->stack);
+
         /* Update history state */
         fsm_push_state(fsm, next);
         if (bfdev_unlikely(next == fsm->error))
-- 
2.43.0


From 7da783a16c90172664c8d8ab9d018b0ccea92855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 19/64] fix: hlist: link the neighbours of an added node

---
 include/bfdev/hlist.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From ab656bb567f9d73c8315e52024b46dbdb93e8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 20/64] fix: ilist: pass the index on to the next equal node

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From 08e23358e1d5f0a718a89a3a2102a7dc33c39196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 21/64] fix: heap: find nodes above the last level

---
 src/heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..0f8bf14 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,10 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    if (bfdev_unlikely(!index || index > root->count))
+        return NULL;
+
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From 8daa31e2598d2bf5d61a26edc8a3db0656e9a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 22/64] fix: segtree: know the subtree end before the tree
 rotates

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From a243c5f0fd6138da2266ff6fefac35d7285d0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 23/64] fix: refcount: retry the not-zero increment until it
 took a reference

---
 include/bfdev/refcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..c6683f6 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev + nr < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From d3141b99baaea5defb0c58fb71a4e12d350f89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 24/64] fix: circle: use the declared variable in
 BFDEV_CIRCLE_SPACE_END

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..b07b75b 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;             \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From a93b7068db4dd2f51ee86ea1307007f2e5140200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 25/64] fix: fifo, ringbuf: write the record length where the
 record goes

---
 src/fifo.c    |  5 ++---
 src/ringbuf.c | 23 +++++++++--------------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..9c01b5b 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -80,7 +80,7 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    offset = fifo->in;
     data = fifo->data;
 
     if (fifo->esize != 1) {
@@ -90,9 +90,8 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += fifo->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..e57e97f 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -80,7 +80,7 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
+    offset = ringbuf->in;
     data = ringbuf->data;
 
     if (ringbuf->esize != 1) {
@@ -90,9 +90,8 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     }
 
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
+        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
         offset += ringbuf->esize;
-        len >>= BFDEV_BITS_PER_U8;
     }
 }
 
@@ -201,23 +200,19 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
                         unsigned long record)
 {
     unsigned long size, offset;
-    unsigned long overflow, datalen;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
-
-    offset = ringbuf->in + record;
-    ringbuf->in = offset + len;
+    if (record > size)
+        return 0;
+    bfdev_min_adj(len, size - record);
 
-    overflow = ringbuf_overflow(ringbuf);
-    while (overflow) {
-        datalen = record + ringbuf_record_peek(ringbuf, record);
-        ringbuf->out += datalen;
-        overflow -= bfdev_min(datalen, overflow);
-    }
+    while (ringbuf_valid(ringbuf) > size - record - len)
+        ringbuf->out += record + ringbuf_record_peek(ringbuf, record);
 
+    offset = ringbuf->in + record;
     ringbuf_record_poke(ringbuf, len, record);
     ringbuf_in_copy(ringbuf, buff, len, offset);
+    ringbuf->in = offset + len;
 
     return len;
 }
-- 
2.43.0


From bda03f1afa57da6ed92401b8967f7954d78bcbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 26/64] fix: fifo, ringbuf: count record lengths in elements of
 any size

---
 include/bfdev/fifo.h    |  6 +++---
 include/bfdev/ringbuf.h |  6 +++---
 src/fifo.c              | 20 ++++----------------
 src/ringbuf.c           | 20 ++++----------------
 4 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/include/bfdev/fifo.h b/include/bfdev/fifo.h
index 7475dd1..2330b2e 100644
--- a/include/bfdev/fifo.h
+++ b/include/bfdev/fifo.h
@@ -308,7 +308,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_peek_record(__fifo,           \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_out_record(__fifo,            \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_fifo_check_empty(__tmp);          \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_fifo {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_fifo_in_record(__fifo,             \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = !bfdev_fifo_check_full(__tmp);           \
         if (__retval) {                                     \
diff --git a/include/bfdev/ringbuf.h b/include/bfdev/ringbuf.h
index 19e46b7..b454895 100644
--- a/include/bfdev/ringbuf.h
+++ b/include/bfdev/ringbuf.h
@@ -308,7 +308,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_peek_record(__ringbuf,     \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -335,7 +335,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_out_record(__ringbuf,      \
-            __tvalue, sizeof(*__tvalue), __recsize);        \
+            __tvalue, 1, __recsize);                        \
     } else {                                                \
         __retval = !bfdev_ringbuf_check_empty(__tmp);       \
         if (__retval) {                                     \
@@ -363,7 +363,7 @@ struct bfdev_ringbuf {
     unsigned long __retval;                                 \
     if (__recsize) {                                        \
         __retval = bfdev_ringbuf_in_record(__ringbuf,       \
-            &__tvalue, sizeof(__tvalue), __recsize);        \
+            &__tvalue, 1, __recsize);                       \
     } else {                                                \
         __retval = bfdev_ringbuf_check_full(__tmp);         \
         if (__retval)                                       \
diff --git a/src/fifo.c b/src/fifo.c
index 9c01b5b..aa2c083 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -58,16 +58,10 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset & mask) * fifo->esize];
+        offset++;
     }
 
     return length;
@@ -83,15 +77,9 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     offset = fifo->in;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += fifo->esize;
+        data[(offset & mask) * fifo->esize] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
+        offset++;
     }
 }
 
diff --git a/src/ringbuf.c b/src/ringbuf.c
index e57e97f..bf6075a 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -58,16 +58,10 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset & mask) * ringbuf->esize];
+        offset++;
     }
 
     return length;
@@ -83,15 +77,9 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     offset = ringbuf->in;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
-        offset += ringbuf->esize;
+        data[(offset & mask) * ringbuf->esize] = (uint8_t)(len >> (recsize * BFDEV_BITS_PER_U8));
+        offset++;
     }
 }
 
-- 
2.43.0


From 70221f155350803a99594a6ae470f6229bbee4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 27/64] fix: fifo, ringbuf: refuse records longer than their
 length field

---
 src/fifo.c    | 17 ++++++++++++++++-
 src/ringbuf.c | 10 ++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/fifo.c b/src/fifo.c
index aa2c083..ff411b8 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -83,6 +83,15 @@ fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
     }
 }
 
+static __bfdev_always_inline unsigned long
+fifo_record_max(unsigned long recsize)
+{
+    if (recsize >= sizeof(unsigned long))
+        return BFDEV_ULONG_MAX;
+
+    return (1UL << (recsize * BFDEV_BITS_PER_U8)) - 1;
+}
+
 static inline bool
 fifo_empty(bfdev_fifo_t *fifo)
 {
@@ -174,7 +183,13 @@ export unsigned long
 bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
                      unsigned long record)
 {
-    if (len + record > fifo_unused(fifo))
+    unsigned long unused;
+
+    unused = fifo_unused(fifo);
+    if (record > unused || len > unused - record)
+        return 0;
+
+    if (len > fifo_record_max(record))
         return 0;
 
     fifo_record_poke(fifo, len, record);
diff --git a/src/ringbuf.c b/src/ringbuf.c
index bf6075a..9c5c048 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -83,6 +83,15 @@ ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long r
     }
 }
 
+static __bfdev_always_inline unsigned long
+ringbuf_record_max(unsigned long recsize)
+{
+    if (recsize >= sizeof(unsigned long))
+        return BFDEV_ULONG_MAX;
+
+    return (1UL << (recsize * BFDEV_BITS_PER_U8)) - 1;
+}
+
 static inline bool
 ringbuf_empty(bfdev_ringbuf_t *ringbuf)
 {
@@ -193,6 +202,7 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
     if (record > size)
         return 0;
     bfdev_min_adj(len, size - record);
+    bfdev_min_adj(len, ringbuf_record_max(record));
 
     while (ringbuf_valid(ringbuf) > size - record - len)
         ringbuf->out += record + ringbuf_record_peek(ringbuf, record);
-- 
2.43.0


From a175ad85d131b5f03f3326775ec0bc19bca3b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 28/64] fix: textsearch: bm shift tables miss byte 255 and
 corrupt each other

The bad character table had no entry for 0xff, so such a byte in the
pattern or the text was looked up in the good suffix table. The good
suffix table was indexed by the (possibly negative) position of the
subpattern instead of its length, overwriting the bad character table,
and subpattern() never matched a prefix, so that shifts could be too
long and skip occurrences.
---
 src/textsearch/bm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..bae5837 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -85,7 +85,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -100,7 +100,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
@@ -118,7 +118,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
-- 
2.43.0


From 17dbf94ae1c4c05b33bea4e9d8e497572a19daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 29/64] fix: textsearch: sunday reads past the block and has no
 entry for 0xff

The byte after the window was read even when the window ends with the
block, and a byte 0xff was looked up beyond the shift table.
---
 src/textsearch/sunday.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..2430725 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -64,7 +64,7 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
             if (index == sctx->pattern_len)
                 return consumed + shift;
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
@@ -81,7 +81,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
-- 
2.43.0


From 22104f779b1b715997fbf462bc07fbf68ca01eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 30/64] fix: textsearch: bm and sunday repeat a match and skip
 later blocks

bfdev_textsearch_next() found the same occurrence forever because the
search offset was not moved behind the match, as kmp does. The window
position was carried over from one block to the next, so that matches
at the start of later blocks, or all of them, were missed.
---
 src/textsearch/bm.c     | 8 +++++---
 src/textsearch/sunday.c | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index bae5837..5e63cca 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -50,21 +50,23 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
 
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = bctx->pattern_len - 1;
         while (shift < length) {
             for (index = 0; index < bctx->pattern_len; ++index) {
                 if (bctx->pattern[bctx->pattern_len - index - 1] != find_pattern())
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 2430725..b51980e 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -48,21 +48,23 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
 
     for (;;) {
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
 
+        shift = 0;
         while (sctx->pattern_len + shift <= length) {
             for (index = 0; index < sctx->pattern_len; ++index) {
                 if (sctx->pattern[index] != find_pattern())
                     break;
             }
 
-            if (index == sctx->pattern_len)
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + sctx->pattern_len;
                 return consumed + shift;
+            }
 
             if (sctx->pattern_len + shift >= length)
                 break;
-- 
2.43.0


From e933c2055c7ba2b7626abb026c1960fd8564b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 31/64] fix: textsearch: kmp ignoring case never matches bytes
 above 0x7f

Such bytes are negative as plain char, and toupper() of them returns
the positive value, which never equals the stored pattern.
---
 src/textsearch/kmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ccb21f5 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
@@ -109,7 +109,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&kctx->tsc))
         bfport_memcpy(kctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        kctx->pattern[index] = toupper(((char *)pattern)[index]);
+        kctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     kmp_compute_prefix(kctx);
 
     return &kctx->tsc;
-- 
2.43.0


From fca9eb6217bb27fed794e8ef796f948ccd41d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 32/64] fix: crc: crc64 and rocksoft drop the upper half of the
 sum

With BFDEV_CRC_EXTEND eight bytes are folded at a time, but only the
lower 32 bits of the sum were mixed into them, so the 64-bit sums of
any aligned run of eight bytes were wrong and depended on the
alignment and chunking of the data.
---
 include/bfdev/crypto/crc-inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..85c96ff 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,7 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^ ((uint64_t)crc >> 32);  \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From 0553184edf330429d64426a60e63442d75dfc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 33/64] fix: mpi: carries and borrows are lost between limbs

Adding or subtracting a limb of all ones together with a pending carry
looked like no carry at all, and an in-place add of an immediate compared
the sum with itself.
---
 src/mpi.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..6e85b93 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
@@ -101,11 +102,14 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
         const BFDEV_MPI_TYPE *ptra, const BFDEV_MPI_TYPE *ptrb,
         unsigned long cnta, unsigned long cntb, bool carry)
 {
-    BFDEV_MPI_TYPE value;
+    BFDEV_MPI_TYPE value, addend;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
-        carry = value < *ptra++;
+        addend = *ptrb++ + carry;
+        carry = addend < carry;
+
+        value = *ptra + addend;
+        carry |= value < *ptra++;
         *ptrs++ = value;
 
         cnta--;
@@ -151,11 +155,14 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
         const BFDEV_MPI_TYPE *ptra, const BFDEV_MPI_TYPE *ptrb,
         unsigned long cnta, unsigned long cntb, bool borrow)
 {
-    BFDEV_MPI_TYPE value;
+    BFDEV_MPI_TYPE value, subend;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
-        borrow = value > *ptra++;
+        subend = *ptrb++ + borrow;
+        borrow = subend < borrow;
+
+        value = *ptra - subend;
+        borrow |= value > *ptra++;
         *ptrs++ = value;
 
         cnta--;
-- 
2.43.0


From 50492e658ccd72ce09c168b2ab09a066e81c2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 34/64] fix: mpi: operands shared with the destination give
 wrong results

Addition and subtraction kept a pointer to the second operand across the
resize of a destination that is the same integer, and multiplication wrote
its product over an operand unless both were the destination.
---
 src/mpi.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 6e85b93..097aa49 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -617,6 +617,8 @@ mpi_add(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
+    /* resizing may have moved the operands */
+    ptrb = mpi_val(vb);
     ptra = mpi_val(va);
     ptrs = mpi_val(dest);
 
@@ -682,6 +684,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
@@ -742,8 +745,9 @@ mpi_mul(bfdev_mpi_t *dest,
     if (cntb == 1)
         return mpi_muli(dest, va, *ptrb);
 
+    /* the product must not overlap its operands */
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -760,11 +764,11 @@ mpi_mul(bfdev_mpi_t *dest,
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
-- 
2.43.0


From 67dff1dbee054c44625828ae4dd588bd639c5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 35/64] fix: mpi: adding an immediate to a negative number or
 zero

The magnitude has to be compared, not the signed value, and zero has no
limb to read.
---
 src/mpi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 097aa49..d3f3278 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1218,7 +1218,7 @@ export int
 bfdev_mpi_addi(bfdev_mpi_t *dest,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
-    BFDEV_MPI_TYPE *value;
+    const BFDEV_MPI_TYPE *value;
     int diff, retval;
 
     if (va->plus) {
@@ -1230,7 +1230,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
@@ -1241,7 +1241,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
             break;
 
         case BFDEV_LT:
-            value = mpi_val(va);
+            value = bfdev_mpi_data(va, NULL);
             retval = mpi_seti(dest, vi - *value);
             if (bfdev_unlikely(retval))
                 return retval;
@@ -1310,7 +1310,7 @@ export int
 bfdev_mpi_subi(bfdev_mpi_t *dest,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
-    BFDEV_MPI_TYPE *value;
+    const BFDEV_MPI_TYPE *value;
     int diff, retval;
 
     if (!va->plus) {
@@ -1333,7 +1333,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
             break;
 
         case BFDEV_LT:
-            value = mpi_val(va);
+            value = bfdev_mpi_data(va, NULL);
             retval = mpi_seti(dest, vi - *value);
             if (bfdev_unlikely(retval))
                 return retval;
-- 
2.43.0


From 8aa93787d14736bee6a611c464626b50bafa7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 36/64] fix: mpi: compare takes a negative zero for a number
 below zero

---
 src/mpi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index d3f3278..bccff8b 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1139,6 +1139,10 @@ bfdev_mpi_cmp(const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     int diff;
 
+    /* zero has no sign */
+    if (!mpi_len(va) && !mpi_len(vb))
+        return BFDEV_EQ;
+
     if (va->plus != vb->plus)
         return bfdev_cmp(va->plus);
 
@@ -1155,7 +1159,7 @@ bfdev_mpi_cmp(const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 export int
 bfdev_mpi_cmpi(const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
-    if (!va->plus)
+    if (!va->plus && mpi_len(va))
         return BFDEV_LT;
 
     return mpi_cmpi(va, vi);
-- 
2.43.0


From 7a5e2b421b36473b301a830e854a8c37ae8b4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 37/64] fix: mpi: wrong quotients, and results that share an
 operand

The long division needs a divisor with its top bit set, and was given the
operands as they are. Quotients and remainders that are also operands were
overwritten while in use, a failed allocation of the remainder was ignored
or half done, and dividing zero by zero was answered with one.
---
 src/mpi.c | 195 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 108 insertions(+), 87 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index bccff8b..4a47a2f 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -466,6 +466,18 @@ mpi_extend(bfdev_mpi_t *var, unsigned long length)
     return -BFDEV_ENOERR;
 }
 
+static inline int
+mpi_reserve(bfdev_mpi_t *var, unsigned long length)
+{
+    unsigned long index;
+
+    index = mpi_len(var);
+    if (index >= length)
+        return -BFDEV_ENOERR;
+
+    return bfdev_array_reserve(&var->value, length - index);
+}
+
 static inline int
 mpi_copy(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
          unsigned long length)
@@ -797,6 +809,10 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
         return -BFDEV_ENOERR;
     }
 
+    retval = mpi_reserve(rem, 1);
+    if (bfdev_unlikely(retval))
+        return retval;
+
     retval = mpi_resize(quot, length);
     if (bfdev_unlikely(retval))
         return retval;
@@ -808,7 +824,7 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        return mpi_seti(rem, value);
 
     return -BFDEV_ENOERR;
 }
@@ -833,95 +849,67 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
 
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
-static inline int
-mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+static int
+mpi_divrem(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+           const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
+    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb, *base;
     unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
+    unsigned int shift;
     int retval;
 
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
     cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
+    cntb = mpi_len(vb);
+    length = cnta - cntb + 1;
 
-        return -BFDEV_ENOERR;
-    }
+    /* the results may be operands, nothing can fail after this */
+    retval = mpi_reserve(rem, cntb);
+    if (bfdev_unlikely(retval))
+        return retval;
 
-    if (rem != va) {
-        retval = mpi_set(rem, va);
+    if (quot) {
+        retval = mpi_reserve(quot, length);
         if (bfdev_unlikely(retval))
             return retval;
     }
 
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
-
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
-    if (bfdev_unlikely(retval))
-        return retval;
+    ptra = bfdev_malloc_array(rem->alloc, 2 * (cnta + 1), BFDEV_MPI_SIZE);
+    if (bfdev_unlikely(!ptra))
+        return -BFDEV_ENOMEM;
 
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
+    ptrb = ptra + cnta + 1;
+    ptrs = ptrb + cntb;
 
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
+    /* scale until the most significant bit of the divisor is set */
+    base = mpi_val(vb);
+    shift = BFDEV_MPI_BITS - 1 - bfdev_flsuf(base[cntb - 1]);
+    mpa_muli(ptrb, base, BFDEV_BIT(shift), cntb, 0);
 
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
+    base = mpi_val(va);
+    ptra[cnta] = mpa_muli(ptra, base, BFDEV_BIT(shift), cnta, 0);
+    BFDEV_BUG_ON(mpa_divrem(ptrs, ptra, ptrb, cnta + 1, cntb));
 
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
+    bfdev_bitmap_shr(ptra, ptra, shift, cntb * BFDEV_MPI_BITS);
+    mpi_copy(rem, ptra, cntb);
 
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
+    if (quot)
+        mpi_copy(quot, ptrs, length);
 
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
-    }
+    bfdev_free(rem->alloc, ptra);
 
     return -BFDEV_ENOERR;
 }
 
 static inline int
-mpi_mod(bfdev_mpi_t *rem,
+mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
         const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cntb;
 
     /* divide by zero */
     cntb = mpi_len(vb);
@@ -931,27 +919,29 @@ mpi_mod(bfdev_mpi_t *rem,
     /* degrade to divi */
     ptrb = mpi_val(vb);
     if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
+        return mpi_divi(quot, rem, va, *ptrb);
 
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
+    return mpi_divrem(quot, rem, va, vb);
+}
 
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
+static inline int
+mpi_mod(bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cntb;
 
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
 
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_modi(rem, va, *ptrb);
 
-    return -BFDEV_ENOERR;
+    return mpi_divrem(NULL, rem, va, vb);
 }
 
 static inline int
@@ -1400,11 +1390,20 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     int retval, diff;
+    bool plusa, plusq;
+
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
+    /* the results may be operands, or the same integer */
+    plusa = va->plus;
+    plusq = !(va->plus ^ vb->plus);
 
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            retval = mpi_reserve(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
@@ -1412,8 +1411,12 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            retval = mpi_seti(quot, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+
             rem->plus = true;
+            quot->plus = plusq;
             break;
 
         case BFDEV_LT:
@@ -1438,8 +1441,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            rem->plus = plusa;
+            quot->plus = plusq;
             break;
     }
 
@@ -1451,11 +1454,17 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
     int retval, diff;
+    bool plus;
+
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
 
+    plus = va->plus;
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-            retval = mpi_seti(quot, 1);
+            retval = mpi_reserve(quot, 1);
             if (bfdev_unlikely(retval))
                 return retval;
 
@@ -1463,8 +1472,12 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            retval = mpi_seti(quot, 1);
+            if (bfdev_unlikely(retval))
+                return retval;
+
             rem->plus = true;
+            quot->plus = plus;
             break;
 
         case BFDEV_LT:
@@ -1489,8 +1502,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            rem->plus = plus;
+            quot->plus = plus;
             break;
     }
 
@@ -1503,6 +1516,10 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1541,6 +1558,10 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
 {
     int retval, diff;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
-- 
2.43.0


From 5ebfb1464ddb8696dd5a30193ff06630f3198fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 38/64] fix: matrix: transpose reads the destination and writes
 the source

---
 src/matrix.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..0d4aedb 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -118,6 +118,8 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
 export int
 bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
+    BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
+    bfdev_matrix_t *rename;
     unsigned int row, col;
     unsigned int size;
     int retval;
@@ -125,6 +127,12 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     col = src->row;
     row = src->col;
 
+    rename = NULL;
+    if (dest == src) {
+        rename = dest;
+        dest = &buffer;
+    }
+
     size = row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
@@ -136,15 +144,20 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
             add[row][col] = ads[col][row];
     }
 
-    return -BFDEV_ENOERR;
+    if (rename) {
+        retval = bfdev_matrix_set(rename, dest);
+        bfdev_matrix_release(dest);
+    }
+
+    return retval;
 }
 
 export int
-- 
2.43.0


From 8f27382802d6a2bf78d7af8f0112ede8961928d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 39/64] fix: matrix: element access multiplies the coordinates

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 0d4aedb..07d13bb 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -213,12 +213,12 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
                   unsigned int row, unsigned int col)
 {
     BFDEV_MATRIX_TYPE *data;
-    unsigned int offset;
+    unsigned long offset;
 
-    if (var->col < row || var->col < col)
+    if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * col;
+    offset = (unsigned long)row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 405bff456cb3a07c7ecd67b3a12d8cc1c04c935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 40/64] fix: matrix: element count overflows, results are
 written out of bounds

---
 src/matrix.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 07d13bb..c71064f 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -8,14 +8,14 @@
 #include <export.h>
 
 static inline void
-matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned int size)
+matrix_zero(BFDEV_MATRIX_TYPE *var, unsigned long size)
 {
     bfport_memset(var, 0, size * BFDEV_MATRIX_SIZE);
 }
 
 static inline void
 matrix_copy(BFDEV_MATRIX_TYPE *dest, const BFDEV_MATRIX_TYPE *src,
-            unsigned int size)
+            unsigned long size)
 {
     bfport_memcpy(dest, src, size * BFDEV_MATRIX_SIZE);
 }
@@ -27,7 +27,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
                     const bfdev_matrix_t *vb)           \
 {                                                       \
     unsigned int row, col;                              \
-    unsigned int size, count;                           \
+    unsigned long size, count;                          \
     int retval;                                         \
                                                         \
     row = va->row;                                      \
@@ -36,7 +36,7 @@ bfdev_matrix_##name(bfdev_matrix_t *dest,               \
     if (row != vb->row || col != vb->col)               \
         return -BFDEV_EINVAL;                           \
                                                         \
-    size = row * col;                                   \
+    size = (unsigned long)row * col;                    \
     retval = bfdev_array_resize(&dest->value, size);    \
     if (bfdev_unlikely(retval))                         \
         return retval;                                  \
@@ -68,7 +68,7 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size, count;
+    unsigned long size, count;
     long value;
     int retval;
 
@@ -81,7 +81,7 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
         dest = &buffer;
     }
 
-    size = va->row * vb->col;
+    size = (unsigned long)va->row * vb->col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -121,7 +121,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
     bfdev_matrix_t *rename;
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     int retval;
 
     col = src->row;
@@ -133,7 +133,7 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
         dest = &buffer;
     }
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -164,14 +164,14 @@ export int
 bfdev_matrix_set(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
     unsigned int row, col;
-    unsigned int size;
+    unsigned long size;
     void *dbuf, *sbuf;
     int retval;
 
     row = src->row;
     col = src->col;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&dest->value, size);
     if (bfdev_unlikely(retval))
         return retval;
@@ -190,11 +190,11 @@ export int
 bfdev_matrix_import(bfdev_matrix_t *var, const BFDEV_MATRIX_TYPE *buffer,
                     unsigned int row, unsigned int col)
 {
-    unsigned int size;
+    unsigned long size;
     void *dbuf;
     int retval;
 
-    size = row * col;
+    size = (unsigned long)row * col;
     retval = bfdev_array_resize(&var->value, size);
     if (bfdev_unlikely(retval))
         return retval;
-- 
2.43.0


From 6ea0a3d7b4dd92b62406fe54b241887265e7cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 41/64] fix: bitmap: setting or clearing a range inside one
 word overruns the bitmap

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 79dc38d39fe47f21374dc50558e9fe4cf13abdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 42/64] fix: bitmap: shift right garbles the last word and lets
 stale bits in

---
 src/bitmap.c | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..c89c401 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -209,7 +209,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
                       unsigned int shift, unsigned int bits)
 {
     unsigned int index, length, offset, rem;
-    unsigned long value, vlow, vhigh;
+    unsigned long value, vlow, vhigh, mask;
 
     length = BFDEV_BITS_TO_LONG(bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
@@ -221,30 +221,23 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
-
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+    mask = BFDEV_BIT_LOW_MASK(bits);
+
+    for (index = offset; index < length; ++index) {
+        vlow = src[index];
+        if (index == length - 1)
+            vlow &= mask;
+
+        vhigh = 0;
+        if (rem && index + 1 < length) {
+            vhigh = src[index + 1];
+            if (index + 1 == length - 1)
+                vhigh &= mask;
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        }
+
+        value = vhigh | (vlow >> rem);
+        dest[index - offset] = value;
     }
 
     if (offset)
-- 
2.43.0


From 6842a88e342e6f7379516c494fe124d209c0d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 43/64] fix: bitmap: equality is inverted for lengths known at
 compile time

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From 9a2a7d3c4b71415c2a5a1b4db077729f36d934fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 44/64] fix: bitwalk: zeros of a full word are never found when
 its length is constant

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 0008736beb1883c578c1d5874132472a4da5bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 45/64] fix: ascii85: encoder reads behind the data of a short
 last group

---
 src/crypto/ascii85.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..4562d38 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -35,8 +35,10 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        uint8_t tail[BFDEV_BYTES_PER_U32] = {};
+
+        bfport_memcpy(tail, data, size);
+        value = bfdev_unaligned_get_be32(tail);
 
         if (!value)
             buff[index] = 'z';
-- 
2.43.0


From 4264728d092e3f574f5f1a6f38a3030d0914ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 46/64] fix: ascii85: decoder overwrites zero groups and fails
 on a last one

---
 src/crypto/ascii85.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 4562d38..4ff9a9e 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -69,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From 937b219a22e51215b2d57f5ba1502e2746011bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 47/64] fix: btree: iteration stops at a key of zero

---
 src/btree.c | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index a8ca854..1236a19 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -105,21 +105,6 @@ bnode_clear_index(bfdev_btree_root_t *root, bfdev_btree_node_t *node,
     bfport_memset(slot, 0, size);
 }
 
-static inline bool
-btree_empty_key(bfdev_btree_root_t *root, uintptr_t *key)
-{
-    bfdev_btree_layout_t *layout;
-    unsigned int count;
-
-    layout = root->layout;
-    for (count = 0; count < layout->keylen; ++count) {
-        if (key[count])
-            return false;
-    }
-
-    return true;
-}
-
 static inline void
 bnode_migrate(bfdev_btree_root_t *root,
               bfdev_btree_node_t *nnode, unsigned nindex,
@@ -638,9 +623,6 @@ bfdev_btree_next(bfdev_btree_root_t *root, uintptr_t *key)
     if (bfdev_unlikely(!height))
         return NULL;
 
-    if (btree_empty_key(root, key))
-        return NULL;
-
     for (depth = 1; depth <= height; ++depth) {
         node = bnode_find_parent(root, key, depth);
         index = bnode_find_index(root, node, key);
@@ -672,9 +654,6 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key)
     if (bfdev_unlikely(!height))
         return NULL;
 
-    if (btree_empty_key(root, key))
-        return NULL;
-
     for (depth = 1; depth <= height; ++depth) {
         node = bnode_find_parent(root, key, depth);
         index = bnode_find_index(root, node, key);
-- 
2.43.0


From 1c31cd2afe73558aee1366ef7d4ff6485319db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 48/64] fix: btree: updating an absent key of zero stores it

---
 src/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 1236a19..42fad4d 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -288,7 +288,7 @@ bfdev_btree_update(bfdev_btree_root_t *root, uintptr_t *key, void *value)
     layout = root->layout;
     index = bnode_key_index(root, node, key);
 
-    if (index == layout->keynum)
+    if (index == layout->keynum || !bnode_get_value(root, node, index))
         return -BFDEV_ENOENT;
 
     bnode_set_value(root, node, index, value);
-- 
2.43.0


From 609b7879e8f8fd6bf7f84ceee8b0a2e978a071a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 49/64] fix: btree: from_safe iterators name an undeclared
 function

---
 include/bfdev/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/btree.h b/include/bfdev/btree.h
index d71b1b1..63fe090 100644
--- a/include/bfdev/btree.h
+++ b/include/bfdev/btree.h
@@ -211,7 +211,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                               \
+    for (bfdev_btree_key_copy(root, tkey, key),                               \
          tval = bfdev_btree_next(root, tkey); value;                    \
          bfdev_btree_key_copy(root, key, tkey),                         \
          value = tval, tval = bfdev_btree_next(root, tkey))
@@ -225,7 +225,7 @@ bfdev_btree_prev(bfdev_btree_root_t *root, uintptr_t *key);
  * @tval: another value to use as temporary storage.
  */
 #define bfdev_btree_for_each_reverse_from_safe(root, key, value, tkey, tval)    \
-    for (btree_key_copy(root, tkey, key),                                       \
+    for (bfdev_btree_key_copy(root, tkey, key),                                       \
          tval = bfdev_btree_prev(root, tkey); value;                            \
          bfdev_btree_key_copy(root, key, tkey),                                 \
          value = tval, tval = bfdev_btree_prev(root, tkey))
-- 
2.43.0


From d39b1b4c1db53cdf2756e88b18762d13be9c6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 50/64] fix: btree: removing an absent key of zero runs past
 the node

---
 src/btree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index 42fad4d..3800900 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -497,6 +497,9 @@ remove_level(bfdev_btree_root_t *root, unsigned int level, uintptr_t *key)
             return NULL;
 
         value = bnode_get_value(root, node, index);
+        if (!value)
+            return NULL;
+
         if (ops->remove) {
             clash = ops->remove(root, value);
             if (clash)
-- 
2.43.0


From f981956fb198eed9439d9202ecee2736bc7bda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 51/64] fix: radix: the continue_safe iterator does not compile

---
 include/bfdev/radix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/radix.h b/include/bfdev/radix.h
index 4277664..f62b8f5 100644
--- a/include/bfdev/radix.h
+++ b/include/bfdev/radix.h
@@ -237,7 +237,7 @@ bfdev_radix_index(uintptr_t offset, size_t cells)
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
          ((tval) = bfdev_radix_next(radix, tidx))); value; \
          (void)((*(index) = *(tidx), (value) = (tval)) && \
-         (tval) = bfdev_radix_next(radix, tidx)))
+         ((tval) = bfdev_radix_next(radix, tidx))))
 
 #define bfdev_radix_for_each_reverse_continue_safe(value, radix, index, tval, tidx) \
     for ((void)((*(index) = *(tidx), (value) = (tval)) && \
-- 
2.43.0


From 08b869e8ccd20cb95a9f24af71a1ca0644ea854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 52/64] fix: radix: charging an unaligned range misses its last
 block

---
 src/radix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/radix.c b/src/radix.c
index 0ac87ad..075b31d 100644
--- a/src/radix.c
+++ b/src/radix.c
@@ -262,7 +262,10 @@ bfdev_radix_root_charge(bfdev_radix_root_t *root,
         if (!bfdev_radix_root_alloc(root, offset))
             return -BFDEV_ENOMEM;
 
-        offset += BFDEV_RADIX_BLOCK;
+        /* on to the next block, however little of it is in the range */
+        offset |= RADIX_BLOCK_MASK;
+        if (bfdev_unlikely(!++offset))
+            break;
     }
 
     return -BFDEV_ENOERR;
-- 
2.43.0


From 5357bbf784b8faae8795b35109ceafce367318ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 53/64] fix: rbtree: cached find_last and remove_augmented
 wrappers cannot be used

---
 include/bfdev/rbtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..bcc315e 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From 7b992c298b9dd5cd7a1a5298b33bc4aef9892193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 54/64] fix: rbtree: augmented insert leaves the path above the
 new node stale

---
 include/bfdev/rbtree.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index bcc315e..b3ed3d4 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -721,7 +721,10 @@ bfdev_rb_insert_augmented(bfdev_rb_root_t *root, bfdev_rb_node_t *node,
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_insert_node_augmented(root, parent, link, node, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_fixup_augmented(root, node, callbacks);
+
     return true;
 }
 
@@ -982,7 +985,10 @@ bfdev_rb_cached_insert_augmented(bfdev_rb_root_cached_t *cached, bfdev_rb_node_t
     if (bfdev_unlikely(!link))
         return false;
 
-    bfdev_rb_cached_insert_node_augmented(cached, parent, link, node, leftmost, callbacks);
+    bfdev_rb_link(parent, link, node);
+    callbacks->propagate(parent, NULL);
+    bfdev_rb_cached_fixup_augmented(cached, node, leftmost, callbacks);
+
     return true;
 }
 
-- 
2.43.0


From 796e72154426e6fb70317f6cbfcf52bf949c45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 55/64] fix: bitops: define bfdev_flnsp64 as bfdev_flnsp

It was defined as bfdev_flns, which takes the count by value, so the
pointer was used as the count.
---
 include/bfdev/bitops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From ed9fb086d89ccc01af47a36e801a6576dee3ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 56/64] fix: allocator: refuse arrays whose size overflows

The product wrapped, so an impossible request returned a block far
smaller than the array it was meant for.
---
 include/bfdev/allocator.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..9563a72 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/limits.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,6 +97,9 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
+    if (bfdev_unlikely(nr && size > BFDEV_SIZE_MAX / nr))
+        return NULL;
+
     return bfdev_malloc(alloc, size * nr);
 }
 
@@ -108,6 +112,9 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
+    if (bfdev_unlikely(nr && size > BFDEV_SIZE_MAX / nr))
+        return NULL;
+
     return bfdev_zalloc(alloc, size * nr);
 }
 
@@ -121,6 +128,9 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
+    if (bfdev_unlikely(nr && size > BFDEV_SIZE_MAX / nr))
+        return NULL;
+
     return bfdev_realloc(alloc, block, size * nr);
 }
 
-- 
2.43.0


From c06d4f75bfcfb078f9591b0f5ce577fa2e21d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 57/64] fix: ilist: a corrupted index was reported but built
 upon

The result of checking the index ring was dropped, so a node was added to
or deleted from a list whose index links do not match.
---
 src/ilist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ilist.c b/src/ilist.c
index 6b6ef89..83ed502 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -60,7 +60,7 @@ ilist_head_check(bfdev_ilist_head_t *ihead)
 
     success = ilist_list_check(&ihead->node_list);
     if (success && !bfdev_ilist_head_empty(ihead))
-        ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
+        success = ilist_list_check(&bfdev_ilist_first(ihead)->index_list);
 
     return success;
 }
-- 
2.43.0


From e49a7a5bde627d1b02ac26c91236e8fe387a52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 58/64] fix: refcount: report an overflow in optimised builds
 too

Adding to a positive signed count cannot be negative without overflow, so
the compiler dropped the check and an overflowing count went unreported.
---
 include/bfdev/refcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index c6683f6..b5e709c 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -74,7 +74,7 @@ bfdev_refcnt_fetch_add(bfdev_refcnt_t *ref, bfdev_atomic_t cnt,
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_UAF);
     else if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_LEAK);
-    else if (bfdev_unlikely(prev + cnt < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + cnt) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADD_OVF);
 #endif
 }
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev + nr < 0))
+    else if (bfdev_unlikely((bfdev_atomic_t)((uintptr_t)prev + nr) < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 3d8a188f72923a6937d035cd91b1c5961c82a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 59/64] fix: bloom: refuse a capacity that rounds to nothing

Aligning a capacity within a word of UINT_MAX wraps to zero, and the
filter was created without a bitmap behind it: the first push wrote
outside the block. The same for a capacity of zero.
---
 src/bloom.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bloom.c b/src/bloom.c
index 73fa17c..9e7da7d 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -69,6 +69,9 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
     size_t size;
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
+    if (bfdev_unlikely(!capacity))
+        return NULL;
+
     size = BFDEV_BITS_DIV_LONG(capacity);
 
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
-- 
2.43.0


From e1a739ab14da8d9a3d2d7ceec2dc273b7b0ba2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 60/64] fix: mpi: shifts of 2^32 bits and more

The bitmap shift takes an unsigned int. Shifting right by a multiple of
2^32 left the value as it was, and shifting left by as much answered
with a value that was not shifted, or had lost its bits.
---
 src/mpi.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4a47a2f..fca6559 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -1068,6 +1068,12 @@ mpi_shli(bfdev_mpi_t *dest,
     if (!cnta)
         return mpi_seti(dest, 0);
 
+    /* the result is shifted as a bitmap, whose length is an unsigned int */
+    length = BFDEV_BITS_DIV_LONG(BFDEV_UINT_MAX);
+    if (bfdev_unlikely(cnta > length ||
+        BFDEV_BITS_DIV_LONG(shift) >= length - cnta))
+        return -BFDEV_EOVERFLOW;
+
     rem = BFDEV_BITS_TO_LONG(shift);
     length = cnta + rem;
 
@@ -1101,7 +1107,7 @@ mpi_shri(bfdev_mpi_t *dest,
         return mpi_set(dest, va);
 
     length = mpi_len(va);
-    if (!length)
+    if (!length || BFDEV_BITS_DIV_LONG(shift) >= length)
         return mpi_seti(dest, 0);
 
     retval = mpi_resize(dest, length);
-- 
2.43.0


From 86b36aa4692dbeafbf234965d58cb8a7355f5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:06 +0000
Subject: [PATCH 61/64] fix: bitops: the nth last set bit of a word of ones

bfdev_flns(~0, nr) returned nr, which is the nth first set bit; counted
from the top it is BITS_PER_LONG - 1 - nr.
---
 include/bfdev/asm-generic/bitops.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..9b9817d 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -585,9 +585,6 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
-
     while (word) {
         bit = bfdev_arch_flsuf(word);
         if (!(*nr)--)
-- 
2.43.0


From ab7e8e3035d2a58b2e9a730c376f5834035769ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 62/64] fix: scnprintf: report nothing written when formatting
 fails

vsnprintf() answers a negative value for text it cannot encode or count;
compared with the unsigned size it looked like a cut-off text, and
size - 1 bytes were reported of which most were never written. The log
passed these uninitialised bytes on to its sink.
---
 src/scnprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..2dd439f 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,6 +16,11 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
+    if (bfdev_unlikely(len < 0)) {
+        *buf = '\0';
+        return 0;
+    }
+
     if (bfdev_likely(len < size))
         return len;
 
-- 
2.43.0


From 9582cb94dd5bc9d7ccf6f95a3107f06508d2ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 63/64] fix: dword: the remainder's high word was left unset
 for a one-word divisor

---
 src/dword.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..f550df3 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,8 +80,12 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-- 
2.43.0


From 92e10ab567db29b33403ffd3d443e3b25dff45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 64/64] fix: dword: dividing by a full-width divisor gave one
 when the dividend's high word was smaller

---
 src/dword.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dword.c b/src/dword.c
index f550df3..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -89,7 +89,7 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0

