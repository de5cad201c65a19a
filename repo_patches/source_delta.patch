From ad53e5b1a22227ff92e30249dab3354b9618571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 01/43] fix: mpack_finish_type() must close arrays and maps
 inside a builder

mpack_finish_type() popped only the write tracking, so an array or map closed
through it inside mpack_build_array()/mpack_build_map() stayed open for the
builder and the following elements were not counted.
---
 src/mpack/mpack-writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d842a3f..d365583 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1081,6 +1081,8 @@ MPACK_INLINE void mpack_finish_ext(mpack_writer_t* writer) {
  */
 MPACK_INLINE void mpack_finish_type(mpack_writer_t* writer, mpack_type_t type) {
     mpack_writer_track_pop(writer, type);
+    if (type == mpack_type_array || type == mpack_type_map)
+        mpack_builder_compound_pop(writer);
 }
 
 /**
-- 
2.43.0


From 74d4c9daffa57bcc5d81ce73f924b8436bf183ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 02/43] fix: mpack_expect_str_match() never matched bytes above
 0x7f

The byte read was compared as uint8_t with a (typically signed) char, so a
string with any non-ASCII byte was reported as not matching itself.
---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 81576d1..ba3ec75 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -698,7 +698,7 @@ void mpack_expect_str_match(mpack_reader_t* reader, const char* str, size_t len)
 
     // check each byte one by one (matched strings are likely to be very small)
     for (; len > 0; --len) {
-        if (mpack_expect_native_u8(reader) != *str++) {
+        if (mpack_expect_native_u8(reader) != (uint8_t)*str++) {
             mpack_reader_flag_error(reader, mpack_error_type);
             return;
         }
-- 
2.43.0


From 7f9c7c0c36e738e4e98259b997a7bc91953ed85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 03/43] fix: mpack_expect_ext_alloc() lost the type of an empty
 ext

An ext of zero length is not an error but yields a NULL block, and the type was
zeroed whenever the block was NULL.
---
 src/mpack/mpack-expect.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ba3ec75..ea6e258 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -759,11 +759,11 @@ char* mpack_expect_ext_alloc(mpack_reader_t* reader, int8_t* type, size_t maxsiz
     char* data = mpack_read_bytes_alloc(reader, length);
     mpack_done_ext(reader);
 
-    if (data) {
+    // data is NULL without error if the ext is empty
+    if (data)
         *size = length;
-    } else {
+    if (mpack_reader_error(reader))
         *type = 0;
-    }
     return data;
 }
 #endif
-- 
2.43.0


From 071ef921c81697055877ea8c0ca51c181b8f4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 04/43] fix: mpack_expect_ext*() accepted timestamps

Their documentation states that mpack_error_type is flagged for a timestamp,
which must be read with mpack_expect_timestamp() instead.
---
 src/mpack/mpack-expect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index ea6e258..14bed87 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -587,7 +587,7 @@ void mpack_expect_bin_size_buf(mpack_reader_t* reader, char* buf, uint32_t size)
 #if MPACK_EXTENSIONS
 uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type) {
     mpack_tag_t var = mpack_read_tag(reader);
-    if (var.type == mpack_type_ext) {
+    if (var.type == mpack_type_ext && mpack_tag_ext_exttype(&var) != MPACK_EXTTYPE_TIMESTAMP) {
         *type = mpack_tag_ext_exttype(&var);
         return mpack_tag_ext_length(&var);
     }
-- 
2.43.0


From 5b1ebb40407c5c5886755db4e0f385626b9477fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 05/43] fix: tree size limit counted bytes already buffered
 twice

The bytes reserved for a node may partly be in the buffer already.
Counting them again made a message fail with mpack_error_too_big, or the
buffer grow beyond the message, depending on how its bytes arrived.
---
 src/mpack/mpack-node.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 8af1562..879cf00 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -89,14 +89,6 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
             "there are already enough bytes! call mpack_tree_ensure() instead.");
     mpack_log("filling to reserve %i bytes\n", (int)bytes);
 
-    // if the necessary bytes would put us over the maximum tree
-    // size, fail right away.
-    // TODO: check for overflow?
-    if (tree->data_length + bytes > tree->max_size) {
-        mpack_tree_flag_error(tree, mpack_error_too_big);
-        return false;
-    }
-
     // we'll need a read function to fetch more data. if there's
     // no read function, the data should contain an entire message
     // (or messages), so we flag it as invalid.
@@ -106,13 +98,28 @@ static bool mpack_tree_reserve_fill(mpack_tree_t* tree) {
         return false;
     }
 
+    // part of the reserved bytes may already be in the buffer. we only need
+    // this much more data.
+    size_t needed = bytes - tree->parser.possible_nodes_left;
+
+    // if the necessary bytes would put us over the maximum tree
+    // size, fail right away.
+    if (tree->data_length > tree->max_size || needed > tree->max_size - tree->data_length) {
+        mpack_tree_flag_error(tree, mpack_error_too_big);
+        return false;
+    }
+
     // expand the buffer if needed
-    if (tree->data_length + bytes > tree->buffer_capacity) {
+    if (tree->data_length + needed > tree->buffer_capacity) {
 
-        // TODO: check for overflow?
         size_t new_capacity = (tree->buffer_capacity == 0) ? MPACK_BUFFER_SIZE : tree->buffer_capacity;
-        while (new_capacity < tree->data_length + bytes)
+        while (new_capacity < tree->data_length + needed) {
+            if (new_capacity > tree->max_size / 2) {
+                new_capacity = tree->max_size;
+                break;
+            }
             new_capacity *= 2;
+        }
         if (new_capacity > tree->max_size)
             new_capacity = tree->max_size;
 
-- 
2.43.0


From d0ee798079d414b94518277c0396491197104cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 06/43] fix: resumed tree parsing counted nodes twice against
 the limit

A container whose contents have not all arrived is parsed again by the next
mpack_tree_try_parse(), but its children had already been counted.
---
 src/mpack/mpack-node.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 879cf00..9a53964 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -289,9 +289,9 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         total *= 2;
     }
 
-    // Make sure we are under our total node limit (TODO can this overflow?)
-    tree->node_count += total;
-    if (tree->node_count > tree->max_nodes) {
+    // Make sure we are under our total node limit (SIZE_MAX means no limit)
+    if (tree->max_nodes != SIZE_MAX && (tree->node_count > tree->max_nodes ||
+                total > tree->max_nodes - tree->node_count)) {
         mpack_tree_flag_error(tree, mpack_error_too_big);
         return false;
     }
@@ -301,6 +301,10 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
     if (!mpack_tree_reserve_bytes(tree, total))
         return false;
 
+    // Count the children only once they are reserved, since this node is
+    // parsed again if we have to wait for more data.
+    tree->node_count += total;
+
     // If there are enough nodes left in the current page, no need to grow
     if (total <= parser->nodes_left) {
         node->value.children = parser->nodes;
-- 
2.43.0


From bc31aa1034dbaced4bc9cb6618f41b39ed9871d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 07/43] fix: failure to allocate the first node page did not
 call the error callback

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 9a53964..6e5b276 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -918,7 +918,7 @@ static bool mpack_tree_parse_start(mpack_tree_t* tree) {
         mpack_log("allocated initial page %p of size %i count %i\n",
                 (void*)page, (int)MPACK_PAGE_ALLOC_SIZE, (int)MPACK_NODES_PER_PAGE);
         if (page == NULL) {
-            tree->error = mpack_error_memory;
+            mpack_tree_flag_error(tree, mpack_error_memory);
             return false;
         }
         page->next = NULL;
-- 
2.43.0


From 98788a3a64dc9295d9355ef5814fb66ac3842067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 08/43] fix: mpack_tree_size() returned a partial size after a
 parsing error

---
 src/mpack/mpack-node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.h b/src/mpack/mpack-node.h
index 26046e8..576f9a2 100644
--- a/src/mpack/mpack-node.h
+++ b/src/mpack/mpack-node.h
@@ -520,7 +520,7 @@ MPACK_INLINE mpack_error_t mpack_tree_error(mpack_tree_t* tree) {
  * be determined if the data is invalid or corrupted.)
  */
 MPACK_INLINE size_t mpack_tree_size(mpack_tree_t* tree) {
-    return tree->size;
+    return (tree->parser.state == mpack_tree_parse_state_parsed) ? tree->size : 0;
 }
 
 /**
-- 
2.43.0


From bfa3b3c543215396ee3982536559965879e49976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 09/43] fix: mpack_discard() could overflow the stack on deeply
 nested data

---
 src/mpack/mpack-reader.c | 86 +++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index dfac4c2..01710a8 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -989,45 +989,57 @@ mpack_tag_t mpack_peek_tag(mpack_reader_t* reader) {
 }
 
 void mpack_discard(mpack_reader_t* reader) {
-    mpack_tag_t var = mpack_read_tag(reader);
-    if (mpack_reader_error(reader))
-        return;
-    switch (var.type) {
-        case mpack_type_str:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_str(reader);
-            break;
-        case mpack_type_bin:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_bin(reader);
-            break;
-        #if MPACK_EXTENSIONS
-        case mpack_type_ext:
-            mpack_skip_bytes(reader, var.v.l);
-            mpack_done_ext(reader);
-            break;
-        #endif
-        case mpack_type_array: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_array(reader);
-            break;
+
+    // We count the elements left to discard rather than recursing into arrays
+    // and maps so that deeply nested data cannot overflow the stack.
+    uint64_t left = 1;
+
+    #if MPACK_READ_TRACKING
+    size_t track_count = reader->track.count;
+    #endif
+
+    while (left > 0) {
+        mpack_tag_t var = mpack_read_tag(reader);
+        if (mpack_reader_error(reader))
+            return;
+        --left;
+
+        switch (var.type) {
+            case mpack_type_str:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_str(reader);
+                break;
+            case mpack_type_bin:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_bin(reader);
+                break;
+            #if MPACK_EXTENSIONS
+            case mpack_type_ext:
+                mpack_skip_bytes(reader, var.v.l);
+                mpack_done_ext(reader);
+                break;
+            #endif
+            case mpack_type_array:
+                left += var.v.n;
+                break;
+            case mpack_type_map:
+                left += (uint64_t)var.v.n * 2;
+                break;
+            default:
+                break;
         }
-        case mpack_type_map: {
-            for (; var.v.n > 0; --var.v.n) {
-                mpack_discard(reader);
-                mpack_discard(reader);
-                if (mpack_reader_error(reader))
-                    break;
-            }
-            mpack_done_map(reader);
-            break;
+        if (mpack_reader_error(reader))
+            return;
+
+        #if MPACK_READ_TRACKING
+        // close all arrays and maps that are now complete
+        while (reader->track.count > track_count) {
+            mpack_track_element_t* element = &reader->track.elements[reader->track.count - 1];
+            if (element->left != 0 || element->key_needs_value)
+                break;
+            mpack_done_type(reader, element->type);
         }
-        default:
-            break;
+        #endif
     }
 }
 
-- 
2.43.0


From 7c81f573621d132b38e9e6226cad10a38a53fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 10/43] fix: skipping past the end of a file was not an error

fseek() succeeds beyond the end of the file, so a truncated string, blob or
ext at the end of a file was skipped or discarded without an error.
---
 src/mpack/mpack-reader.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 01710a8..cde42d1 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -110,10 +110,15 @@ static void mpack_file_reader_skip(mpack_reader_t* reader, size_t count) {
 
     // We call ftell() to test whether the stream is seekable
     // without causing a file error.
-    if (ftell(file) >= 0) {
+    if (count > 0 && count - 1 <= (size_t)LONG_MAX && ftell(file) >= 0) {
         mpack_log("seeking forward %i bytes\n", (int)count);
-        if (fseek(file, (long int)count, SEEK_CUR) == 0)
+        if (fseek(file, (long int)(count - 1), SEEK_CUR) == 0) {
+            // Seeking past the end of the file succeeds, so we read the last
+            // of the skipped bytes to make sure they are really there.
+            if (fgetc(file) == EOF)
+                mpack_reader_flag_error(reader, mpack_error_io);
             return;
+        }
         mpack_log("fseek() didn't return zero!\n");
         if (ferror(file)) {
             mpack_reader_flag_error(reader, mpack_error_io);
-- 
2.43.0


From 41fb4e375f1f36236e209c41396d36dfb5f9f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 11/43] fix: C-string reads left partial data in the buffer
 when the data ran out

---
 src/mpack/mpack-reader.c | 43 +++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index cde42d1..0862dc0 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -458,23 +458,45 @@ void mpack_read_utf8(mpack_reader_t* reader, char* p, size_t byte_count) {
         mpack_reader_flag_error(reader, mpack_error_type);
 }
 
+// Reads native bytes with error callback disabled. This allows MPack reader functions
+// to hold an allocated buffer and read native data into it without leaking it, or to
+// empty a string buffer, in case of a non-local jump (longjmp, throw) out of an error
+// handler.
+static void mpack_read_native_noerrorfn(mpack_reader_t* reader, char* p, size_t count) {
+    mpack_assert(reader->error == mpack_ok, "cannot call if an error is already flagged!");
+    mpack_reader_error_t error_fn = reader->error_fn;
+    reader->error_fn = NULL;
+    mpack_read_native(reader, p, count);
+    reader->error_fn = error_fn;
+}
+
 static void mpack_read_cstr_unchecked(mpack_reader_t* reader, char* buf, size_t buffer_size, size_t byte_count) {
     mpack_assert(buf != NULL, "destination for read of %i bytes is NULL", (int)byte_count);
     mpack_assert(buffer_size >= 1, "buffer size is zero; you must have room for at least a null-terminator");
 
-    if (mpack_reader_error(reader)) {
-        buf[0] = 0;
+    // the string is empty in case of error
+    buf[0] = 0;
+
+    if (mpack_reader_error(reader))
         return;
-    }
 
     if (byte_count > buffer_size - 1) {
         mpack_reader_flag_error(reader, mpack_error_too_big);
-        buf[0] = 0;
         return;
     }
 
     mpack_reader_track_str_bytes_all(reader, byte_count);
-    mpack_read_native(reader, buf, byte_count);
+    if (mpack_reader_error(reader) != mpack_ok)
+        return;
+
+    // read with error callback disabled so we can empty the buffer first
+    mpack_read_native_noerrorfn(reader, buf, byte_count);
+    if (mpack_reader_error(reader) != mpack_ok) {
+        buf[0] = 0;
+        if (reader->error_fn)
+            reader->error_fn(reader, mpack_reader_error(reader));
+        return;
+    }
     buf[byte_count] = 0;
 }
 
@@ -499,17 +521,6 @@ void mpack_read_utf8_cstr(mpack_reader_t* reader, char* buf, size_t buffer_size,
 }
 
 #ifdef MPACK_MALLOC
-// Reads native bytes with error callback disabled. This allows MPack reader functions
-// to hold an allocated buffer and read native data into it without leaking it in
-// case of a non-local jump (longjmp, throw) out of an error handler.
-static void mpack_read_native_noerrorfn(mpack_reader_t* reader, char* p, size_t count) {
-    mpack_assert(reader->error == mpack_ok, "cannot call if an error is already flagged!");
-    mpack_reader_error_t error_fn = reader->error_fn;
-    reader->error_fn = NULL;
-    mpack_read_native(reader, p, count);
-    reader->error_fn = error_fn;
-}
-
 char* mpack_read_bytes_alloc_impl(mpack_reader_t* reader, size_t count, bool null_terminated) {
 
     // track the bytes first in case it jumps
-- 
2.43.0


From 58f92adc65dfea51e395c4e59abb3c81f7bd0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 12/43] fix: NaN was accepted by mpack_expect_float_range() and
 mpack_expect_double_range()

---
 src/mpack/mpack-expect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 14bed87..b0e14af 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -275,8 +275,8 @@ uint64_t mpack_expect_raw_double(mpack_reader_t* reader) {
     if (mpack_reader_error(reader) != mpack_ok)                         \
         return min_value;                                               \
                                                                         \
-    /* make sure it fits */                                             \
-    if (val < min_value || val > max_value) {                           \
+    /* make sure it fits (the negated form also rejects NaN) */         \
+    if (!(val >= min_value && val <= max_value)) {                      \
         mpack_reader_flag_error(reader, mpack_error_type);              \
         return min_value;                                               \
     }                                                                   \
-- 
2.43.0


From f7639c80aff9d080b8d6f69fb4994d1f77ed50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 13/43] fix: mpack_expect_bool() could return true for a value
 of another type

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index b0e14af..e220121 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -326,8 +326,10 @@ void mpack_expect_nil(mpack_reader_t* reader) {
 
 bool mpack_expect_bool(mpack_reader_t* reader) {
     uint8_t type = mpack_expect_type_byte(reader);
-    if ((type & ~1) != 0xc2)
+    if ((type & ~1) != 0xc2) {
         mpack_reader_flag_error(reader, mpack_error_type);
+        return false;
+    }
     return (bool)(type & 1);
 }
 
-- 
2.43.0


From 542b7f221e6b997a941e26547ba866870fcf5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 14/43] fix: mpack_expect_ext_max() did not clear the type of
 an ext that is too long

---
 src/mpack/mpack-expect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-expect.h b/src/mpack/mpack-expect.h
index 02a1abc..4de568c 100644
--- a/src/mpack/mpack-expect.h
+++ b/src/mpack/mpack-expect.h
@@ -1228,6 +1228,7 @@ uint32_t mpack_expect_ext(mpack_reader_t* reader, int8_t* type);
 MPACK_INLINE uint32_t mpack_expect_ext_max(mpack_reader_t* reader, int8_t* type, uint32_t maxsize) {
     uint32_t length = mpack_expect_ext(reader, type);
     if (length > maxsize) {
+        *type = 0;
         mpack_reader_flag_error(reader, mpack_error_type);
         return 0;
     }
-- 
2.43.0


From d2cfc90a21df6596d33254fb43f6966f532e956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 15/43] fix: mpack_expect_key_uint() ignored non-negative keys
 encoded as signed

---
 src/mpack/mpack-expect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index e220121..7ad3b68 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -837,8 +837,9 @@ size_t mpack_expect_key_uint(mpack_reader_t* reader, bool found[], size_t count)
     }
     mpack_assert(found != NULL, "found cannot be NULL");
 
-    // the key is only recognized if it is an unsigned int
-    if (mpack_peek_tag(reader).type != mpack_type_uint) {
+    // the key is only recognized if it is a non-negative int
+    mpack_tag_t tag = mpack_peek_tag(reader);
+    if (tag.type != mpack_type_uint && (tag.type != mpack_type_int || tag.v.i < 0)) {
         mpack_discard(reader);
         return count;
     }
-- 
2.43.0


From 81574d7f21975f6dd5489ba74659fc0414b5583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 16/43] fix: the size of mpack_expect_array_alloc() could
 overflow

---
 src/mpack/mpack-expect.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index 7ad3b68..f5be302 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -476,7 +476,10 @@ void* mpack_expect_array_alloc_impl(mpack_reader_t* reader, size_t element_size,
         return NULL;
     }
 
-    void* p = MPACK_MALLOC(element_size * count);
+    // a count that cannot be allocated must not wrap around
+    void* p = NULL;
+    if (count <= SIZE_MAX / element_size)
+        p = MPACK_MALLOC(element_size * count);
     if (p == NULL) {
         mpack_reader_flag_error(reader, mpack_error_memory);
         return NULL;
-- 
2.43.0


From dbba73e8a8b1079ec5021805d77d12c14fc311f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 17/43] fix: builder lost data after discarding space at the
 end of a page on 32-bit

---
 src/mpack/mpack-writer.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 029b065..e8c484f 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1734,24 +1734,19 @@ static void mpack_builder_resolve(mpack_writer_t* writer) {
             offset = sizeof(mpack_builder_page_t);
         }
 
-        // now see if we can find another build.
+        // now see if we can find another build, either in this page or in a
+        // later one. (the space left in a page is discarded if it's too small
+        // for a build or for the minimum buffer that must follow it.)
         offset = mpack_builder_align_build(offset);
-        if (offset + sizeof(mpack_build_t) > mpack_builder_page_size(writer, page)) {
-            mpack_log("not enough room in this page for another build\n");
+        while (page != NULL && offset + sizeof(mpack_build_t) > page->bytes_used) {
+            mpack_log("no more builds in this page\n");
             mpack_builder_page_t* next_page = page->next;
             mpack_builder_free_page(writer, page);
             page = next_page;
-            if (page == NULL) {
-                mpack_log("no more pages\n");
-                // there are no more pages. we're done.
-                break;
-            }
             offset = mpack_builder_align_build(sizeof(mpack_builder_page_t));
         }
-        if (offset + sizeof(mpack_build_t) > page->bytes_used) {
-            // there is no more data. we're done.
-            mpack_log("no more data\n");
-            mpack_builder_free_page(writer, page);
+        if (page == NULL) {
+            mpack_log("no more pages. we're done.\n");
             break;
         }
 
-- 
2.43.0


From 21d51e26395a221710a81d34f7d476be5430cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 18/43] fix: double free when an error callback longjmps out of
 growable writer teardown

---
 src/mpack/mpack-writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index e8c484f..ee3c5c0 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -254,6 +254,7 @@ static void mpack_growable_writer_teardown(mpack_writer_t* writer) {
             char* buffer = (char*)mpack_realloc(writer->buffer, used, size);
             if (!buffer) {
                 MPACK_FREE(writer->buffer);
+                writer->buffer = NULL;
                 mpack_writer_flag_error(writer, mpack_error_memory);
                 return;
             }
-- 
2.43.0


From a68c843480365cc2d26043000ba6fad01094aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 19/43] fix: file closed twice when an error callback longjmps
 out of file writer teardown

---
 src/mpack/mpack-writer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index ee3c5c0..9577d08 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -318,13 +318,14 @@ static void mpack_file_writer_teardown(mpack_writer_t* writer) {
 static void mpack_file_writer_teardown_close(mpack_writer_t* writer) {
     FILE* file = (FILE*)writer->context;
 
+    // clean up first since the error callback may longjmp out
+    mpack_file_writer_teardown(writer);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_writer_flag_error(writer, mpack_error_io);
     }
-
-    mpack_file_writer_teardown(writer);
 }
 
 void mpack_writer_init_stdfile(mpack_writer_t* writer, FILE* file, bool close_when_done) {
-- 
2.43.0


From 32daf4f64ef3c46ceb7645b2654473ac0c380908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 20/43] fix: closing a compound in a builder asserted if an
 error had been flagged inside it

---
 src/mpack/mpack-writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index d365583..06e85a2 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -721,7 +721,7 @@ MPACK_INLINE void mpack_builder_compound_pop(mpack_writer_t* writer) {
 
     #if MPACK_BUILDER
     mpack_build_t* build = writer->builder.current_build;
-    if (build != NULL) {
+    if (build != NULL && mpack_writer_error(writer) == mpack_ok) {
         mpack_assert(build->nested_compound_elements > 0);
         --build->nested_compound_elements;
     }
-- 
2.43.0


From e00890cf683cf9f092e61be644819e2046aa683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 21/43] fix: mpack_skip_bytes() continued after a tracking
 error

---
 src/mpack/mpack-reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 0862dc0..e7ea2be 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -402,7 +402,8 @@ void mpack_skip_bytes(mpack_reader_t* reader, size_t count) {
         return;
     mpack_log("skip requested for %i bytes\n", (int)count);
 
-    mpack_reader_track_bytes(reader, count);
+    if (mpack_reader_track_bytes(reader, count) != mpack_ok)
+        return;
 
     // check if we have enough in the buffer already
     size_t left = (size_t)(reader->end - reader->data);
-- 
2.43.0


From b7c044aee34005e9689d56c1cdfc9e48b1bb9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 22/43] fix: mpack_writer_destroy() ignored unclosed elements
 found by tracking

---
 src/mpack/mpack-writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 9577d08..c642292 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -534,7 +534,7 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
 
     // clean up tracking, asserting if we're not already in an error state
     #if MPACK_WRITE_TRACKING
-    mpack_track_destroy(&writer->track, writer->error != mpack_ok);
+    mpack_writer_flag_if_error(writer, mpack_track_destroy(&writer->track, writer->error != mpack_ok));
     #endif
 
     #if MPACK_BUILDER
-- 
2.43.0


From 5cf1286a4059939b867c3e4b07f2624392e4f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 23/43] fix: starting a build overflowed a page if a new page
 could not be allocated

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index c642292..15854e0 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1595,6 +1595,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
         mpack_log("not enough space for a build. %zi bytes used of %zi in this page\n",
                 builder->current_page->bytes_used, mpack_builder_page_size(writer, builder->current_page));
         mpack_builder_add_page(writer);
+        if (mpack_writer_error(writer) != mpack_ok)
+            return;
         // there is always enough space in a fresh page.
         offset = mpack_builder_align_build(builder->current_page->bytes_used);
     }
-- 
2.43.0


From b75f92f9d9c7222a5828653166d61db81e56ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 24/43] fix: starting a build asserted if tracking flagged an
 error

---
 src/mpack/mpack-writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 15854e0..62cdebd 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -1576,6 +1576,8 @@ static void mpack_builder_build(mpack_writer_t* writer, mpack_type_t type) {
 
     mpack_writer_track_element(writer);
     mpack_writer_track_push_builder(writer, type);
+    if (mpack_writer_error(writer) != mpack_ok)
+        return;
 
     mpack_builder_t* builder = &writer->builder;
 
-- 
2.43.0


From ef95b0d5913f65d70796e85738491e9ec4b72867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 25/43] fix: mpack_tree_init_stdfile() did not close the file
 if max_bytes is invalid

---
 src/mpack/mpack-node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 6e5b276..72fb3b3 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1202,10 +1202,8 @@ static void mpack_tree_init_stdfile_noclose(mpack_tree_t* tree, FILE* stdfile, s
 }
 
 void mpack_tree_init_stdfile(mpack_tree_t* tree, FILE* stdfile, size_t max_bytes, bool close_when_done) {
-    if (!mpack_tree_file_check_max_bytes(tree, max_bytes))
-        return;
-
-    mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
+    if (mpack_tree_file_check_max_bytes(tree, max_bytes))
+        mpack_tree_init_stdfile_noclose(tree, stdfile, max_bytes);
 
     if (close_when_done)
         fclose(stdfile);
-- 
2.43.0


From 93b52376e8439a7a2121a3209e47db9c8dce8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 26/43] fix: shortening a double too large for a float gave NaN
 instead of infinity

---
 src/mpack/mpack-common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-common.h b/src/mpack/mpack-common.h
index 3e77e07..308c53d 100644
--- a/src/mpack/mpack-common.h
+++ b/src/mpack/mpack-common.h
@@ -1035,7 +1035,7 @@ MPACK_INLINE float mpack_shorten_raw_double_to_float(uint64_t d) {
             // we don't currently handle subnormal numbers. just set it to zero.
             f_exponent = 0;
             f_significand = 0;
-        } else if (MPACK_UNLIKELY(fix_bias > 0xff)) {
+        } else if (MPACK_UNLIKELY(fix_bias >= 0xff)) {
             // exponent is too large; saturate to infinity
             f_exponent = 0xff;
             f_significand = 0;
-- 
2.43.0


From c5ed7ac2f35dd57f2bb29bae451eef07eb5b41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 27/43] fix: C++ overloads did not compile without MPACK_FLOAT
 or MPACK_DOUBLE

---
 src/mpack/mpack-writer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpack/mpack-writer.h b/src/mpack/mpack-writer.h
index 06e85a2..19a1029 100644
--- a/src/mpack/mpack-writer.h
+++ b/src/mpack/mpack-writer.h
@@ -1220,13 +1220,17 @@ MPACK_INLINE void mpack_write(mpack_writer_t* writer, bool value) {
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, float value) {
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, double value) {
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write(mpack_writer_t* writer, char *value) {
     mpack_write_cstr_or_nil(writer, value);
@@ -1283,15 +1287,19 @@ MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, bool v
     mpack_write_bool(writer, value);
 }
 
+#if MPACK_FLOAT
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, float value) {
     mpack_write_cstr(writer, key);
     mpack_write_float(writer, value);
 }
+#endif
 
+#if MPACK_DOUBLE
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, double value) {
     mpack_write_cstr(writer, key);
     mpack_write_double(writer, value);
 }
+#endif
 
 MPACK_INLINE void mpack_write_kv(mpack_writer_t* writer, const char *key, char *value) {
     mpack_write_cstr(writer, key);
-- 
2.43.0


From d4fd96bf492a76a0bc003b726f9be19adafaf337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 28/43] fix: the size of mpack_node_cstr_alloc() and
 mpack_node_utf8_cstr_alloc() overflowed for a 4 GB string

---
 src/mpack/mpack-node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 72fb3b3..740c241 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1686,7 +1686,7 @@ char* mpack_node_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
@@ -1723,7 +1723,7 @@ char* mpack_node_utf8_cstr_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)(node.data->len + 1));
+    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len + 1);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 1f586183fa665f6055733bdaf11a9fd97764c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 29/43] fix: file reader closed its file twice if the error
 callback jumped out of a failed close

---
 src/mpack/mpack-reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index e7ea2be..4d2dfe4 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -143,13 +143,14 @@ static void mpack_file_reader_teardown(mpack_reader_t* reader) {
 static void mpack_file_reader_teardown_close(mpack_reader_t* reader) {
     FILE* file = (FILE*)reader->context;
 
+    // clean up first since the error callback may longjmp out
+    mpack_file_reader_teardown(reader);
+
     if (file) {
         int ret = fclose(file);
         if (ret != 0)
             mpack_reader_flag_error(reader, mpack_error_io);
     }
-
-    mpack_file_reader_teardown(reader);
 }
 
 void mpack_reader_init_stdfile(mpack_reader_t* reader, FILE* file, bool close_when_done) {
-- 
2.43.0


From e27005de62ab691181f39c9c34f57b964810b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 30/43] fix: printing a string node of a tree in an error state
 asserted

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 740c241..1f45dd8 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1304,7 +1304,7 @@ mpack_tag_t mpack_node_tag(mpack_node_t node) {
 static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, size_t depth) {
     mpack_node_data_t* data = node.data;
     size_t i,j;
-    switch (data->type) {
+    switch (mpack_node_type(node)) { // nil if the tree is in an error state
         case mpack_type_str:
             {
                 mpack_print_append_cstr(print, "\"");
-- 
2.43.0


From e439e5c3cc4e40f50d1c293c8a0def1df834a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 31/43] fix: debug printing cut off the last digits of very
 large doubles

---
 src/mpack/mpack-node.c   | 2 +-
 src/mpack/mpack-reader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 1f45dd8..4e599c7 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1367,7 +1367,7 @@ static void mpack_node_print_element(mpack_node_t node, mpack_print_t* print, si
                     prefix_length = mpack_node_data_len(node);
                 }
 
-                char buf[256];
+                char buf[512]; // the longest double takes 317 bytes
                 mpack_tag_t tag = mpack_node_tag(node);
                 mpack_tag_debug_pseudo_json(tag, buf, sizeof(buf), prefix, prefix_length);
                 mpack_print_append_cstr(print, buf);
diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 4d2dfe4..9dcb2e6 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1217,7 +1217,7 @@ static void mpack_print_element(mpack_reader_t* reader, mpack_print_t* print, si
             break;
     }
 
-    char buf[256];
+    char buf[512]; // the longest double takes 317 bytes
     mpack_tag_debug_pseudo_json(val, buf, sizeof(buf), buffer, count);
     mpack_print_append_cstr(print, buf);
 }
-- 
2.43.0


From 6001665e6f18963c4bcd00176f739a7817d0c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 32/43] fix: the size of a page of nodes could overflow on
 32-bit

---
 src/mpack/mpack-node.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 4e599c7..83d54e1 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -333,9 +333,12 @@ static bool mpack_tree_parse_children(mpack_tree_t* tree, mpack_node_data_t* nod
         mpack_tree_page_t* page;
 
         if (total > MPACK_NODES_PER_PAGE || parser->nodes_left > MPACK_NODES_PER_PAGE / 8) {
-            // TODO: this should check for overflow
-            page = (mpack_tree_page_t*)MPACK_MALLOC(
-                    sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
+            // the size of the page can overflow on 32-bit
+            page = NULL;
+            if (total - 1 <= (SIZE_MAX - sizeof(mpack_tree_page_t)) / sizeof(mpack_node_data_t)) {
+                page = (mpack_tree_page_t*)MPACK_MALLOC(
+                        sizeof(mpack_tree_page_t) + sizeof(mpack_node_data_t) * (total - 1));
+            }
             if (page == NULL) {
                 mpack_tree_flag_error(tree, mpack_error_memory);
                 return false;
-- 
2.43.0


From f4cd583771e272535b6187d3563caff3fec32569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 33/43] fix: growing a writer past half of the address space
 looped forever

---
 src/mpack/mpack-writer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 62cdebd..f59f165 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -205,15 +205,19 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
     mpack_log("flush size %i used %i data %p buffer %p\n",
             (int)count, (int)used, data, writer->buffer);
 
-    mpack_assert(data == writer->buffer || used + count > size,
+    mpack_assert(data == writer->buffer || count > size - used,
             "extra flush for %i but there is %i space left in the buffer! (%i/%i)",
             (int)count, (int)mpack_writer_buffer_left(writer), (int)used, (int)size);
 
     // grow to fit the data
-    // TODO: this really needs to correctly test for overflow
-    size_t new_size = size * 2;
-    while (new_size < used + count)
+    size_t new_size = size;
+    do {
+        if (new_size > SIZE_MAX / 2) {
+            mpack_writer_flag_error(writer, mpack_error_memory);
+            return;
+        }
         new_size *= 2;
+    } while (new_size - used < count);
 
     mpack_log("flush growing buffer size from %i to %i\n", (int)size, (int)new_size);
 
-- 
2.43.0


From 92fa677b8fd1bba0e7396538dd618a7fd74d3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 34/43] fix: the printed count of extra bytes wrapped above 2
 GB

---
 src/mpack/mpack-reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-reader.c b/src/mpack/mpack-reader.c
index 9dcb2e6..5475865 100644
--- a/src/mpack/mpack-reader.c
+++ b/src/mpack/mpack-reader.c
@@ -1236,7 +1236,7 @@ static void mpack_print_and_destroy(mpack_reader_t* reader, mpack_print_t* print
         buf[sizeof(buf) - 1] = '\0';
         mpack_print_append_cstr(print, buf);
     } else if (remaining > 0) {
-        mpack_snprintf(buf, sizeof(buf), "\n<%i extra bytes at end of message>", (int)remaining);
+        mpack_snprintf(buf, sizeof(buf), "\n<%" PRIu64 " extra bytes at end of message>", (uint64_t)remaining);
         buf[sizeof(buf) - 1] = '\0';
         mpack_print_append_cstr(print, buf);
     }
-- 
2.43.0


From 54d9bf3d0091f1e3d68fddaf8eb7407a271ab055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 35/43] fix: the tree size limit was ignored for data already
 in memory

mpack_tree_set_limits() had no effect on the message size of trees that
parse data in memory, or that lies in the buffer when a limit is lowered.
---
 src/mpack/mpack-node.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 83d54e1..59faecc 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -206,8 +206,17 @@ MPACK_STATIC_INLINE bool mpack_tree_reserve_bytes(mpack_tree_t* tree, size_t ext
     // Note that possible_nodes_left already accounts for reserved bytes for
     // children of previous compound nodes. So even if there are hundreds of
     // bytes left in the buffer, we might need to read anyway.
-    if (tree->parser.current_node_reserved <= tree->parser.possible_nodes_left)
+    if (tree->parser.current_node_reserved <= tree->parser.possible_nodes_left) {
+
+        // All of it is in the buffer already, but it may still be over the
+        // maximum tree size.
+        if (tree->data_length - tree->parser.possible_nodes_left +
+                tree->parser.current_node_reserved > tree->max_size) {
+            mpack_tree_flag_error(tree, mpack_error_too_big);
+            return false;
+        }
         return true;
+    }
 
     #ifdef MPACK_MALLOC
     return mpack_tree_reserve_fill(tree);
-- 
2.43.0


From b1031dc2160866887a2c5020fc28ba8c894f7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 36/43] fix: mpack_expect_cstr_alloc() refused a string of the
 maximum length

The limit was reduced to 32 bits before leaving room for the null-terminator.
---
 src/mpack/mpack-expect.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index f5be302..b6b83bb 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -646,15 +646,19 @@ static char* mpack_expect_cstr_alloc_unchecked(mpack_reader_t* reader, size_t ma
         return NULL;
     }
 
+    // leave room for the null-terminator before limiting this to 32 bits, since
+    // the terminator of the longest possible string does not fit in 32 bits.
+    size_t maxlength = maxsize - 1;
+
     if (SIZE_MAX < MPACK_UINT32_MAX) {
-        if (maxsize > SIZE_MAX)
-            maxsize = SIZE_MAX;
+        if (maxlength > SIZE_MAX)
+            maxlength = SIZE_MAX;
     } else {
-        if (maxsize > (size_t)MPACK_UINT32_MAX)
-            maxsize = (size_t)MPACK_UINT32_MAX;
+        if (maxlength > (size_t)MPACK_UINT32_MAX)
+            maxlength = (size_t)MPACK_UINT32_MAX;
     }
 
-    size_t length = mpack_expect_str_max(reader, (uint32_t)maxsize - 1);
+    size_t length = mpack_expect_str_max(reader, (uint32_t)maxlength);
     char* str = mpack_read_bytes_alloc_impl(reader, length, true);
     mpack_done_str(reader);
 
-- 
2.43.0


From 437b0908e9add3353b0dc7d8ca80992385cad447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 37/43] fix: the element count of a build wrapped after 2^32-1
 elements

The message was written with the wrong count without an error.
---
 src/mpack/mpack-writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index f59f165..5bf7606 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -78,7 +78,10 @@ static inline void mpack_writer_track_element(mpack_writer_t* writer) {
         // We only track this write if it's not nested within another non-build
         // map or array.
         if (build->nested_compound_elements == 0) {
-            if (build->type != mpack_type_map) {
+            if (build->count == MPACK_UINT32_MAX) {
+                // No array or map can contain more elements than this.
+                mpack_writer_flag_error(writer, mpack_error_too_big);
+            } else if (build->type != mpack_type_map) {
                 ++build->count;
                 mpack_log("adding element to build %p, now %" PRIu32 " elements\n", (void*)build, build->count);
             } else if (build->key_needs_value) {
-- 
2.43.0


From 116e4e1aefe3b3c6126546a66f8569046410add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 38/43] fix: writes used a buffer released by destroying the
 writer in its error callback

A write of data would continue after its header failed, and opening a container
would use the released build pages.
---
 src/mpack/mpack-writer.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 5bf7606..439e266 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -576,11 +576,13 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->position = builder->stash_position;
         writer->end = builder->stash_end;
 
-        // Note: It's not necessary to clean up the current_build or other
-        // pointers at this point because we're guaranteed to be in an error
-        // state already so a user error callback can't longjmp out. This
-        // destroy function will complete no matter what so it doesn't matter
-        // what junk is left in the writer.
+        // The pages are gone so nothing can be in progress anymore. (We might
+        // have been called from an error callback, in which case the write
+        // that caused the error has yet to return.)
+        builder->current_build = NULL;
+        builder->latest_build = NULL;
+        builder->current_page = NULL;
+        builder->pages = NULL;
     }
     #endif
 
@@ -595,6 +597,12 @@ mpack_error_t mpack_writer_destroy(mpack_writer_t* writer) {
         writer->teardown = NULL;
     }
 
+    // If we were called from an error callback, the write that caused the error
+    // has yet to return. Make sure it finds no space left in the buffer, which
+    // might not exist anymore.
+    if (writer->error != mpack_ok)
+        writer->end = writer->position;
+
     return writer->error;
 }
 
-- 
2.43.0


From 1ad25e132a248eba99b9d49fe1f108d4fdddc2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 39/43] fix: null pointers to empty data were passed to
 memcpy() and memcmp()

The assertions allow a null pointer when the length is zero, but those functions
do not.
---
 src/mpack/mpack-node.c   | 10 ++++++----
 src/mpack/mpack-reader.h |  2 +-
 src/mpack/mpack-writer.c |  5 +++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 59faecc..830f7ea 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1543,7 +1543,8 @@ size_t mpack_node_copy_data(mpack_node_t node, char* buffer, size_t bufsize) {
         return 0;
     }
 
-    mpack_memcpy(buffer, mpack_node_data_unchecked(node), node.data->len);
+    if (node.data->len > 0)
+        mpack_memcpy(buffer, mpack_node_data_unchecked(node), node.data->len);
     return (size_t)node.data->len;
 }
 
@@ -1569,7 +1570,8 @@ size_t mpack_node_copy_utf8(mpack_node_t node, char* buffer, size_t bufsize) {
         return 0;
     }
 
-    mpack_memcpy(buffer, mpack_node_data_unchecked(node), node.data->len);
+    if (node.data->len > 0)
+        mpack_memcpy(buffer, mpack_node_data_unchecked(node), node.data->len);
     return (size_t)node.data->len;
 }
 
@@ -1834,8 +1836,8 @@ static mpack_node_data_t* mpack_node_map_str_impl(mpack_node_t node, const char*
     for (i = 0; i < node.data->len; ++i) {
         mpack_node_data_t* key = mpack_node_child(node, i * 2);
 
-        if (key->type == mpack_type_str && key->len == length &&
-                mpack_memcmp(str, mpack_node_data_unchecked(mpack_node(tree, key)), length) == 0) {
+        if (key->type == mpack_type_str && key->len == length && (length == 0 ||
+                mpack_memcmp(str, mpack_node_data_unchecked(mpack_node(tree, key)), length) == 0)) {
             if (found) {
                 mpack_node_flag_error(node, mpack_error_data);
                 return NULL;
diff --git a/src/mpack/mpack-reader.h b/src/mpack/mpack-reader.h
index 092e2ba..013a230 100644
--- a/src/mpack/mpack-reader.h
+++ b/src/mpack/mpack-reader.h
@@ -920,7 +920,7 @@ MPACK_INLINE void mpack_read_native(mpack_reader_t* reader, char* p, size_t coun
 
     if (count > (size_t)(reader->end - reader->data)) {
         mpack_read_native_straddle(reader, p, count);
-    } else {
+    } else if (count > 0) {
         mpack_memcpy(p, reader->data, count);
         reader->data += count;
     }
diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 439e266..8fc7801 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -531,7 +531,7 @@ MPACK_STATIC_INLINE void mpack_write_native(mpack_writer_t* writer, const char*
 
     if (mpack_writer_buffer_left(writer) < count) {
         mpack_write_native_straddle(writer, p, count);
-    } else {
+    } else if (count > 0) {
         mpack_memcpy(writer->position, p, count);
         writer->position += count;
     }
@@ -1280,7 +1280,8 @@ void mpack_write_str(mpack_writer_t* writer, const char* data, uint32_t count) {
         if (MPACK_LIKELY(mpack_writer_buffer_left(writer) >= size) || mpack_writer_ensure(writer, size)) {
             char* MPACK_RESTRICT p = writer->position;
             mpack_encode_fixstr(p, (uint8_t)count);
-            mpack_memcpy(p + MPACK_TAG_SIZE_FIXSTR, data, count);
+            if (count > 0)
+                mpack_memcpy(p + MPACK_TAG_SIZE_FIXSTR, data, count);
             writer->position += count + MPACK_TAG_SIZE_FIXSTR;
         }
         return;
-- 
2.43.0


From aa332d99148fbfd7f803e82006080f129824a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 40/43] fix: flushing a growable writer doubled its buffer each
 time

---
 src/mpack/mpack-writer.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mpack/mpack-writer.c b/src/mpack/mpack-writer.c
index 8fc7801..467635a 100644
--- a/src/mpack/mpack-writer.c
+++ b/src/mpack/mpack-writer.c
@@ -183,13 +183,14 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
     // capacity for data. This removes the need to copy data from a fixed buffer
     // into a growable one, improving performance.
     //
-    // There are three ways flush can be called:
+    // There are four ways flush can be called:
     //   - flushing the buffer during writing (used is zero, count is all data, data is buffer)
+    //   - flushing a message (the same, but there may be plenty of space left in the buffer)
     //   - flushing extra data during writing (used is all flushed data, count is extra data, data is not buffer)
     //   - flushing during teardown (used and count are both all flushed data, data is buffer)
     //
-    // In the first two cases, we grow the buffer by at least double, enough
-    // to ensure that new data will fit. We ignore the teardown flush.
+    // If there isn't enough space left, we grow the buffer by at least double,
+    // enough to ensure that new data will fit. We ignore the teardown flush.
 
     if (data == writer->buffer) {
 
@@ -197,8 +198,12 @@ static void mpack_growable_writer_flush(mpack_writer_t* writer, const char* data
         if (mpack_writer_buffer_used(writer) == count)
             return;
 
-        // otherwise leave the data in the buffer and just grow
+        // otherwise leave the data in the buffer and just grow, unless there
+        // is still space left. (Flushing after each message must not double
+        // the buffer each time.)
         writer->position = writer->buffer + count;
+        if (mpack_writer_buffer_left(writer) >= MPACK_WRITER_MINIMUM_BUFFER_SIZE)
+            return;
         count = 0;
     }
 
-- 
2.43.0


From 2c52ebb4b6ddf2b68c8b595a69a2a02d8ef6f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:26 +0000
Subject: [PATCH 41/43] fix: size of a map of 2^31 pairs or more wrapped around
 in the tree parser

---
 src/mpack/mpack-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index 830f7ea..acccc33 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -796,7 +796,7 @@ static bool mpack_tree_parse_node(mpack_tree_t* tree, mpack_node_data_t* node) {
     if (node->type == mpack_type_array)
         node_size -= node->len;
     else if (node->type == mpack_type_map)
-        node_size -= node->len * 2;
+        node_size -= (size_t)node->len * 2;
     tree->size += node_size;
 
     mpack_log("parsed a node of type %s of %i bytes and "
-- 
2.43.0


From 0ce2f5b325f65b86c07af55e7d44720a8125e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 42/43] fix: mpack_node_data_alloc() of empty data depended on
 malloc(0)

---
 src/mpack/mpack-node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-node.c b/src/mpack/mpack-node.c
index acccc33..860b829 100644
--- a/src/mpack/mpack-node.c
+++ b/src/mpack/mpack-node.c
@@ -1664,7 +1664,8 @@ char* mpack_node_data_alloc(mpack_node_t node, size_t maxlen) {
         return NULL;
     }
 
-    char* ret = (char*) MPACK_MALLOC((size_t)node.data->len);
+    // malloc(0) is allowed to return NULL, so we allocate at least one byte
+    char* ret = (char*) MPACK_MALLOC(node.data->len == 0 ? 1 : (size_t)node.data->len);
     if (ret == NULL) {
         mpack_node_flag_error(node, mpack_error_memory);
         return NULL;
-- 
2.43.0


From 761b2f8752694e0e5947bda990ec8037319ce31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:44 +0000
Subject: [PATCH 43/43] fix: mpack_expect_str() tracked a string on a reader
 destroyed in its error callback

---
 src/mpack/mpack-expect.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpack/mpack-expect.c b/src/mpack/mpack-expect.c
index b6b83bb..a4ad8b4 100644
--- a/src/mpack/mpack-expect.c
+++ b/src/mpack/mpack-expect.c
@@ -518,7 +518,9 @@ uint32_t mpack_expect_str(mpack_reader_t* reader) {
     }
 
     #if MPACK_READ_TRACKING
-    mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
+    // the reader may have been destroyed by its error callback
+    if (mpack_reader_error(reader) == mpack_ok)
+        mpack_reader_flag_if_error(reader, mpack_track_push(&reader->track, mpack_type_str, count));
     #endif
     return count;
     #endif
-- 
2.43.0

