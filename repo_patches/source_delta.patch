From 20028e987c90e2a9e0a8f730568b1f1de0692b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 1/7] Add verification hooks behind cfg(grenad_verif)

---
 src/block.rs                |  2 ++
 src/lib.rs                  |  5 +++++
 src/reader/mod.rs           |  1 +
 src/reader/reader_cursor.rs |  2 ++
 src/sorter.rs               |  7 +++++++
 src/verif.rs                | 36 ++++++++++++++++++++++++++++++++++++
 6 files changed, 53 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/block.rs b/src/block.rs
index b7ded34..35a25ec 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -11,6 +11,7 @@ use crate::{CompressionType, Error};
 
 /// Represent a `Block`, with the index offsets and the key value payload.
 #[derive(Clone)]
+#[cfg_attr(grenad_verif, derive(Debug))]
 pub struct Block {
     /// The compression type that is used to compress/decompress this block.
     compression_type: CompressionType,
@@ -119,6 +120,7 @@ impl Block {
 }
 
 #[derive(Clone)]
+#[cfg_attr(grenad_verif, derive(Debug))]
 pub struct BlockCursor<B> {
     block: B,
     current_offset: Option<usize>,
diff --git a/src/lib.rs b/src/lib.rs
index 8897178..1dab570 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -188,6 +188,8 @@
 //! # Ok(()) }
 //! ```
 
+#![allow(unexpected_cfgs)] // `grenad_verif` guards the verification hooks
+
 #[cfg(test)]
 #[macro_use]
 extern crate quickcheck;
@@ -205,6 +207,9 @@ mod metadata;
 mod reader;
 mod sorter;
 mod varint;
+#[cfg(grenad_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod writer;
 
 pub use self::compression::CompressionType;
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 72ce6d1..e2e9203 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -14,6 +14,7 @@ mod reader_cursor;
 
 /// A struct that is able to read a grenad file that has been created by a [`crate::Writer`].
 #[derive(Clone)]
+#[cfg_attr(grenad_verif, derive(Debug))]
 pub struct Reader<R> {
     metadata: Metadata,
     reader: R,
diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..041f7a2 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -8,6 +8,7 @@ use crate::{CompressionType, Error, Reader};
 
 /// A cursor that can move forward backward and move on a specified key.
 #[derive(Clone)]
+#[cfg_attr(grenad_verif, derive(Debug))]
 pub struct ReaderCursor<R> {
     index_block_cursor: IndexBlockCursor,
     current_cursor: Option<BlockCursor<Block>>,
@@ -229,6 +230,7 @@ impl<R> Deref for ReaderCursor<R> {
 
 /// Represent an n-depth index block cursor.
 #[derive(Clone)]
+#[cfg_attr(grenad_verif, derive(Debug))]
 struct IndexBlockCursor {
     base_block_offset: u64,
     compression_type: CompressionType,
diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..5983ef3 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -79,6 +79,11 @@ impl<MF, CC> SorterBuilder<MF, CC> {
     /// The amount of memory to reach that will trigger a memory dump from in memory to disk.
     pub fn dump_threshold(&mut self, memory: usize) -> &mut Self {
         self.dump_threshold = cmp::max(memory, MIN_SORTER_MEMORY);
+        #[cfg(grenad_verif)]
+        {
+            self.dump_threshold =
+                crate::verif::sorter_budget(self.dump_threshold, memory, MIN_SORTER_MEMORY);
+        }
         self
     }
 
@@ -181,6 +186,8 @@ impl<MF, CC: ChunkCreator> SorterBuilder<MF, CC> {
     pub fn build(self) -> Sorter<MF, CC> {
         let capacity =
             if self.allow_realloc { INITIAL_SORTER_VEC_SIZE } else { self.dump_threshold };
+        #[cfg(grenad_verif)]
+        let capacity = crate::verif::sorter_capacity(capacity, INITIAL_SORTER_VEC_SIZE);
 
         Sorter {
             chunks: Vec::new(),
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..c2cdc9d
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,36 @@
+//! Hooks for the verification machinery, only compiled with `--cfg grenad_verif`.
+//!
+//! Nothing here changes the behaviour of the crate unless an override is installed.
+
+use std::cell::Cell;
+
+pub use crate::varint::{varint_decode32, varint_encode32};
+
+thread_local! {
+    static MIN_SORTER_MEMORY: Cell<Option<usize>> = const { Cell::new(None) };
+    static INITIAL_SORTER_VEC_SIZE: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Overrides, for the current thread, the minimum memory budget and the initial
+/// buffer size of the sorters, `None` restores the default ones.
+pub fn set_sorter_limits(min_memory: Option<usize>, initial_vec_size: Option<usize>) {
+    MIN_SORTER_MEMORY.with(|c| c.set(min_memory));
+    INITIAL_SORTER_VEC_SIZE.with(|c| c.set(initial_vec_size));
+}
+
+/// Replaces a budget that has been raised to the default minimum by the one
+/// that the overridden minimum gives.
+pub(crate) fn sorter_budget(clamped: usize, asked: usize, default_min: usize) -> usize {
+    match MIN_SORTER_MEMORY.with(Cell::get) {
+        Some(min) if clamped == default_min => asked.max(min),
+        _ => clamped,
+    }
+}
+
+/// Replaces the default initial buffer size by the overridden one.
+pub(crate) fn sorter_capacity(capacity: usize, default_initial: usize) -> usize {
+    match INITIAL_SORTER_VEC_SIZE.with(Cell::get) {
+        Some(initial) if capacity == default_initial => initial,
+        _ => capacity,
+    }
+}
-- 
2.43.0


From 56fb01bb78751db4ea4079a9ce0f8353400b86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 2/7] fix: record the right offset next to the loaded index
 blocks

The index block cursors are associated with the offset of their block to avoid
loading it again. The initial load stored the offset of the child block instead,
and moving to the next or previous index block did not update it, so that a
first, last or seek could reuse the wrong index block.
---
 src/reader/reader_cursor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 041f7a2..10ff991 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -352,7 +352,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -367,6 +367,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
@@ -417,8 +418,8 @@ impl IndexBlockCursor {
             match (mov)(&mut cursor) {
                 Some((_key, offset_bytes)) => {
                     let offset = offset_bytes.try_into().map(u64::from_be_bytes).unwrap();
-                    jump_to_offset = offset;
                     inner.push((jump_to_offset, cursor));
+                    jump_to_offset = offset;
                 }
                 None => return Ok(None),
             }
-- 
2.43.0


From 646d56b94f52cfac553043d7143be75c9e827b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 3/7] fix: finish files with 255 index levels without
 overflowing

256 index block writers do not fit in an u8: finishing such a writer
panicked when overflow checks are enabled.
---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 8ef52f369e67c94fa44269de4694f4cd66937841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 4/7] fix: accept any zlib compression level

flate2 asserts, in debug builds, that the level is at most 10.
---
 src/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..566f0ba 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,7 +110,8 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
-    let compression = flate2::Compression::new(level);
+    // The highest level that flate2 accepts is 10.
+    let compression = flate2::Compression::new(level.min(10));
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
     encoder.finish().map(Cow::Owned)
-- 
2.43.0


From cc868bf36b08dbbdb8f218a544ea505c428522d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 5/7] fix: convert the invalid format version error instead of
 panicking

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From d4387d1ad66c0177a4b1e4da2f2a793e968b9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 6/7] fix: survive interrupted and failing reads of lz4 blocks

---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 566f0ba..407e6ca 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -203,9 +203,13 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The frame decoder loses bytes on interrupted reads and takes some failing
+    // reads for the end of the frame, we therefore only give it bytes in memory.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0


From 6232c09070df1b28b3aa89cb85ec933b9a70aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 7/7] fix: refuse sorter buffers whose rounded size overflows

---
 src/sorter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index 5983ef3..e9d40ae 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -393,7 +393,7 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        let size = size.checked_next_multiple_of(entry_bound_size).expect("capacity overflow");
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0

