From 9c3ec0ee9451e436cdfda641964959aaad8288cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 01/10] fix: evaluate value_size() only once in ILTag::size()

Evaluating it twice per level made the size (and hence the serialization)
of nested tags take time exponential in the nesting depth.
---
 src/tags/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..8c018b1 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -196,11 +196,12 @@ pub trait ILTag: Any + Send + Sync {
 
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
+        let value_size = self.value_size();
         let mut size: u64 = encoded_size(self.id()) as u64;
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0


From 5a046a2ad6a19d7b29b7ecf3e5919cda7ae0ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 02/10] fix: report the actual header size of tags in
 RawTagScanner

The header size was computed from the shortest encoding of the id and of
the value size, thus the reported offsets were wrong for tags whose header
uses a longer (valid) ILInt encoding.
---
 src/tags/raw/mod.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..6cc3e75 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -221,9 +221,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -272,15 +272,27 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint()?;
+            (size_size, value_size, value_size)
         })
     }
 
+    /// Reads an ILInt from the source. The number of bytes it occupies is
+    /// determined by its header as the encoding is not required to be the
+    /// shortest one.
+    ///
+    /// It returns:
+    /// - the value;
+    /// - the number of bytes read from the source;
+    fn read_ilint(&mut self) -> Result<(u64, u64)> {
+        let mut tmp: [u8; 9] = [0; 9];
+        tmp[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(tmp[0]);
+        self.reader.read_all(&mut tmp[1..size])?;
+        let mut encoded = crate::io::array::ByteArrayReader::new(&tmp[..size]);
+        Ok((encoded.deserialize_ilint()?, size as u64))
+    }
+
     /// Extracts the size of an implicit ILInt tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
-- 
2.43.0


From ae5b76b0230230aef8e725d52d77459ea2d8849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 03/10] fix: reject tags that end beyond the 64-bit range in
 RawTagScanner

The computation of the next offset overflowed (panic in debug builds,
wrapped offsets in release builds) for huge declared value sizes.
---
 src/tags/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 6cc3e75..3d65949 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -227,7 +227,10 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        self.offset = header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+            .ok_or(ErrorKind::CorruptedData)?;
         self.reader.skip_u64(bytes_to_skip)?;
         Ok(Some(RawTagOffset {
             id,
-- 
2.43.0


From f16f9c7321ce9e707288df185554623bfdb66d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 04/10] fix: do not overflow when skipping huge counts on
 seekable readers

The new position overflowed (panic in debug builds, backward seek in
release builds) when the count was close to 2^64.
---
 src/io/std_io/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..48d89b3 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -197,12 +197,12 @@ where
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
             }
         }
-- 
2.43.0


From 5c6526925d0f43c9149ceba6003ab4d5f0e89d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 05/10] fix: no available bytes when the stream position is
 beyond its end

SizedSeek::available() underflowed when the position was past the end of
the stream.
---
 src/io/std_io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 48d89b3..4d50a7a 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,7 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From 8cb03d7813fe2c6390915ebb15cc1c1300dcf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 06/10] fix: LimitedReader checks the limit before skipping

The default implementation of skip() reads in chunks of 512 bytes, thus a
skip beyond the limit consumed data from the source before failing.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 00524efad438138cef132e536b0e4d11d3896c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 07/10] fix: failed skips do not move seekable readers

The position was left at the end of the stream when there were fewer bytes
than requested.
---
 src/io/std_io/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 4d50a7a..130ea52 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -194,6 +194,7 @@ where
         } else {
             let curr_pos = self.seek(std::io::SeekFrom::Current(0))?;
             let end_pos = self.seek(std::io::SeekFrom::End(0))?;
+            self.seek(std::io::SeekFrom::Start(curr_pos))?;
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-- 
2.43.0


From ab290e65ec739adf65a3be4800d8a4d4000cc0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 08/10] fix: WriteWriter handles short and interrupted writes

std::io::Write::write() may accept only part of the data or be interrupted;
both made the write fail after part of the data had been sent.
---
 src/io/std_io/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 130ea52..55c4ea8 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -143,17 +143,15 @@ impl<'a> WriteWriter<'a> {
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
         let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        self.write_all(&tmp)
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
+        match self.dest.write_all(buff) {
+            Ok(()) => Ok(()),
+            Err(e) if e.kind() == std::io::ErrorKind::WriteZero => {
+                Err(ErrorKind::UnableToWriteData)
+            }
             Err(e) => Err(ErrorKind::IOError(e)),
         }
     }
-- 
2.43.0


From e00fb9d2512947f2226400825dc79ea1d20c06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 09/10] fix: BorrowedVecWriter::bytes_written() does not
 underflow

It underflowed after set_offset() moved the cursor before the initial
offset.
---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0


From 7c0208c5658f2f5d986b57dbcf492a7c1490662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 10/10] fix: do not preallocate arrays from unverified element
 counts

A few bytes declaring a huge array were enough to request up to 8 GiB of
memory, repeatedly when nested, before any element was read.
---
 src/tags/standard/explicit/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..108b814 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -43,6 +43,11 @@ use crate::tags::{tag_size_to_usize, ILRawTag};
 use ::std::any::Any;
 use ::std::collections::HashMap;
 
+/// Maximum number of elements of an array whose space is reserved in advance.
+/// The count found in the serialized data cannot be trusted before the
+/// elements are actually read.
+const MAX_PREALLOCATION: usize = 1024;
+
 /// This macro defines the methods for tags that uses an ILRawTag as
 /// its inner implementation.
 ///
@@ -534,7 +539,8 @@ impl ILTag for ILILIntArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.value.clear();
-        self.value.reserve(count as usize);
+        self.value
+            .reserve(std::cmp::min(count as usize, MAX_PREALLOCATION));
         for _i in 0..count {
             self.value.push(lreader.deserialize_ilint()?);
         }
@@ -686,7 +692,9 @@ impl ILTag for ILTagArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.inner.value.clear();
-        self.inner.value.reserve(count as usize);
+        self.inner
+            .value
+            .reserve(std::cmp::min(count as usize, MAX_PREALLOCATION));
         for _i in 0..count {
             self.inner.value.push(factory.deserialize(&mut lreader)?);
         }
-- 
2.43.0

