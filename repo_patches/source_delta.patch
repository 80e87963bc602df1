From 4886a9eedc4ffac3207bd5615e0c56ff0bb12d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 01/23] fix: reject NaN in mpack_expect_float_range() and
 mpack_expect_double_range()

---
 src/mpack/mpack-expect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..8a40389 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -275,8 +275,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
     if (mpack_reader_error(reader) != mpack_ok)                         \
         return min_value;                                               \
                                                                         \
-    /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* make sure it fits (written so that NaN is never in range) */     \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From 1bc51c3ada2e586061bc72bdc2a21d18970a2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 02/23] fix: return false from mpack_expect_bool() when the
 value is not a bool

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 8a40389..4a1eb3e 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 89f8caef73e32821ec70a217bca6d0ae26691dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 03/23] fix: saturate doubles just above the float range to
 infinity, not NaN

---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From 2c1062252636fb455f25b7b336591dd7bb76c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 04/23] fix: enforce the tree message size limit exactly

The limit check counted bytes already in the buffer twice, so a message
within the limit could be rejected depending on how its data arrived, and
it did not apply to a message already in memory.
---
 src/mpack/mpack-node.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..4dea431 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,13 +89,8 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
+    // some of the bytes we need may already be in the buffer
+    size_t missing = bytes - tree->parser.possible_nodes_left;
 
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
@@ -107,11 +102,11 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     }
 
     // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    if (tree->data_length + missing > tree->buffer_capacity) {
 
         // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < tree->data_length + missing)
             new_capacity *= 2;
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
@@ -189,13 +184,21 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     // more likely that the message is corrupt than that the data is valid but
     // not parseable on this architecture (see test_read_node_possible() in
     // test-node.c .)
-    if ((uint64_t)tree->parser.current_node_reserved + (uint64_t)extra_bytes > SIZE_MAX) {
+    size_t previously_reserved = tree->data_length - tree->parser.possible_nodes_left;
+    if ((uint64_t)previously_reserved + (uint64_t)tree->parser.current_node_reserved + (uint64_t)extra_bytes > SIZE_MAX) {
         mpack_tree_flag_error(tree, mpack_error_invalid);
         return false;
     }
 
     tree->parser.current_node_reserved += extra_bytes;
 
+    // if the bytes needed so far would put us over the maximum message
+    // size, fail right away (whether or not we already have them.)
+    if (previously_reserved + tree->parser.current_node_reserved > tree->max_size) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     // Note that possible_nodes_left already accounts for reserved bytes for
     // children of previous compound nodes. So even if there are hundreds of
     // bytes left in the buffer, we might need to read anyway.
-- 
2.43.0


From cfac2b8dabc3cca0e99d069299cb82557e72b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 05/23] fix: count the children of a node once when parsing
 resumes

---
 src/mpack/mpack-node.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 4dea431..3000661 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -285,17 +285,20 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    // Make sure we are under our total node limit. (If this overflows, there
+    // are more nodes than possible bytes so reserving bytes below will fail.)
+    if (tree->node_count + total > tree->max_nodes) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
 
     // Each node is at least one byte. Count these bytes now to make
-    // sure there is enough data left.
+    // sure there is enough data left. (If there isn't, this node may be
+    // parsed again when there is more data, so we don't count its children
+    // until afterwards.)
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
+    tree->node_count += total;
 
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
-- 
2.43.0


From 541f13ab95eae8e7ca7418cce815dde6443ca8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 06/23] fix: call the error handler when the first node page
 cannot be allocated

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 3000661..25f22ea 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -913,7 +913,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From a742889cb1afd55a8c9505dd073bb1edc5a6d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 07/23] fix: avoid an endless loop growing the tree buffer near
 SIZE_MAX

---
 src/mpack/mpack-node.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 25f22ea..43bbc66 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -104,10 +104,15 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
     // expand the buffer if needed
     if (tree->data_length + missing > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + missing)
+        while (new_capacity < tree->data_length + missing) {
+            if (new_capacity > tree->max_size / 2) {
+                // doubling would pass the limit (and could overflow)
+                new_capacity = tree->max_size;
+                break;
+            }
             new_capacity *= 2;
+        }
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
-- 
2.43.0


From b02dbecc49ba925e52c7c75690cff7c9ec31329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 08/23] fix: check for overflow when growing a growable
 writer's buffer

---
 src/mpack/mpack-writer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..ee36b11 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -210,10 +210,14 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
     // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
-    size_t new_size = size * 2;
-    while (new_size < used + count)
+    size_t new_size = size;
+    do {
+        if (new_size > SIZE_MAX / 2 || count > SIZE_MAX - used) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    } while (new_size < used + count);
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From 69eb3172bdbec3045e2e656e8e1a907370a1d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 09/23] fix: stop building when a builder page cannot be
 allocated

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index ee36b11..51e956c 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1597,6 +1597,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From 6cb844bb05331b6585202cb230050bc3e9e4ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 10/23] fix: resolve builds that leave little room in their
 page

---
 src/mpack/mpack-writer.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 51e956c..adb7221 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1740,24 +1740,22 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build. it may not be in this page even
+        // if there is room for it: when a build leaves less than the minimum
+        // buffer size in its page, everything after it is in the next page.
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        while (offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no other build in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-            if (page == NULL) {
-                mpack_log("no more pages\n");
-                // there are no more pages. we're done.
+            if (page == NULL)
                 break;
-            }
             offset = mpack_builder_align_build(sizeof(mpack_builder_page_t));
         }
-        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
+        if (page == NULL) {
             // there is no more data. we're done.
             mpack_log("no more data\n");
-            mpack_builder_free_page(writer, page);
             break;
         }
 
-- 
2.43.0


From 79cc9fc94cd60d36f10979bb88b352841540aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 11/23] fix: do not start a build after a tracking error

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index adb7221..a977c0d 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1578,6 +1578,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From c9fe38687dc422a02e645c0644f837099d51f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 12/23] fix: leave an empty string when reading a C string
 fails

mpack_read_cstr() and mpack_read_utf8_cstr() (and the expect functions on top
of them) left a partially filled string in the destination when the stream
ended or failed in the middle of it.
---
 src/mpack/mpack-reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..ba33de1 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -471,6 +471,10 @@ static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t
     mpack_reader_track_str_bytes_all(reader, byte_count);
     mpack_read_native(reader, buf, byte_count);
     buf[byte_count] = 0;
+
+    // a failed read must not leave part of the string
+    if (mpack_reader_error(reader) != mpack_ok)
+        buf[0] = 0;
 }
 
 void mpack_read_cstr(mpack_reader_t* reader, char* buf, size_t buffer_size, size_t byte_count) {
-- 
2.43.0


From 1f89d352f9d58e772848a62ef7193e187ddbc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 13/23] fix: match non-ASCII bytes in mpack_expect_str_match()

Bytes were compared with char values, so where char is signed no string
containing a byte above 0x7f ever matched.
---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 4a1eb3e..d2d0015 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -700,7 +700,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From 1d139cc4db1b53423d64c651be4d2cdc278d3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 14/23] fix: reject arrays whose allocation size overflows

mpack_expect_array_alloc() multiplied the element size by the declared count
without a check. On 32-bit the product could wrap, and the caller was given a
small block for a huge element count.
---
 src/mpack/mpack-expect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index d2d0015..f0429e5 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,7 +476,10 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    // the total size may not fit in a size_t
+    void* p = NULL;
+    if (count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 808bcdf228b34355327a10b707a840dacba8fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 15/23] fix: do not wrap the size of an allocated 4 GiB string

mpack_node_cstr_alloc() and mpack_node_utf8_cstr_alloc() added one to the
32-bit length before widening it. For a string of 2^32-1 bytes they allocated
nothing and wrote the string past the end of the block.
---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 43bbc66..d546d10 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1688,7 +1688,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1725,7 +1725,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From e048cf4d1aad8af0af823fb273075a3161818ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:31 +0000
Subject: [PATCH 16/23] fix: do not skip data after a tracking error

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index ba33de1..460f981 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -397,7 +397,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From 6a5f76193203571a7759ef29019fa36423ef2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 17/23] fix: report unclosed elements when a tracking writer is
 destroyed

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index a977c0d..478dce2 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -536,7 +536,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 8c26461b599b736af023a79e235ce9ebca3cc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:12 +0000
Subject: [PATCH 18/23] fix: clear the extension type when it is too long for
 mpack_expect_ext_max()

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From 9ca531d2fd88150855662b138f14a9204caa3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 19/23] fix: keep the type of an empty extension in
 mpack_expect_ext_alloc()

---
 src/mpack/mpack-expect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index f0429e5..78b64d9 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -766,7 +766,8 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
 
     if (data) {
         *size = length;
-    } else {
+    } else if (mpack_reader_error(reader) != mpack_ok) {
+        // an empty extension is not an error and has no data
         *type = 0;
     }
     return data;
-- 
2.43.0


From ddb79affaeda54e0c2c540e8104f2ad6c506c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:19 +0000
Subject: [PATCH 20/23] fix: do not assert when finishing an element of an
 outer build after an error

---
 src/mpack/mpack-writer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..0a9ab30 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -720,8 +720,10 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
     MPACK_UNUSED(writer);
 
     #if MPACK_BUILDER
+    // in an error state builds are not completed, so this compound element may
+    // not belong to the current build.
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    if (build != NULL && writer->error == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From f8054be4cdc72bbb6fac11e8aa2a94a004c78a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 21/23] fix: skipping past the end of a file is an error

The skip function of file readers seeked past the end of a truncated file,
which succeeds, so a truncated last element was skipped without error. It
also converted the count to a possibly 32-bit long which seeked backwards
for counts above LONG_MAX.
---
 src/mpack/mpack-reader.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 460f981..ee61f3b 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -109,11 +109,20 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
     FILE* file = (FILE*)reader->context;
 
     // We call ftell() to test whether the stream is seekable
-    // without causing a file error.
-    if (ftell(file) >= 0) {
+    // without causing a file error. (A count that doesn't fit
+    // in a long would seek backwards.)
+    if (count <= (size_t)LONG_MAX && ftell(file) >= 0) {
         mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+
+        // It's not an error to seek past the end of a file. We read the
+        // last byte to make sure that the skipped bytes exist.
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            char last;
+            if (fread(&last, 1, 1, file) != 1)
+                mpack_reader_flag_error(reader, mpack_error_io);
             return;
+        }
+
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 6b78324fd7d90e741b0e8173f47d3bdb37c9e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 22/23] fix: close the file when mpack_tree_init_stdfile()
 rejects max_bytes

The file was leaked if close_when_done was set and max_bytes was larger
than LONG_MAX.
---
 src/mpack/mpack-node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index d546d10..ba2c7c6 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1202,10 +1202,8 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
-        return;
-
-    mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
+    if (mpack_tree_file_check_max_bytes(tree, max_bytes))
+        mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
     if (close_when_done)
         fclose(stdfile);
-- 
2.43.0


From de7727c8dd5459a9118612afd438032c481e03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:00 +0000
Subject: [PATCH 23/23] fix: printing a string node of a tree in error no
 longer fails an assertion

mpack_node_print_to_buffer() and friends looked at the node's own type, so
that for a str node they used mpack_node_data_unchecked(), which asserts that
the tree is not in an error state. All nodes are nil nodes when the tree is in
error; print them as such.
---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index ba2c7c6..0a6cbb0 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1304,7 +1304,7 @@ mpack_tag_t mpack_node_tag(mpack_node_t node) {
 static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, size_t depth) {
     mpack_node_data_t* data = node.data;
     size_t i,j;
-    switch (data->type) {
+    switch (mpack_node_type(node)) {
         case mpack_type_str:
             {
                 mpack_print_append_cstr(print, "\"");
-- 
2.43.0

