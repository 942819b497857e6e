From e7d8be632b890f45a2cd1844d60d3ef9bcb74cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:04 +0000
Subject: [PATCH 001/116] fix: find the pak footer in archives shorter than the
 largest footer

Archives smaller than 0xCD bytes failed to load, and entry data which happened
to look like the magic took precedence over the real footer.
---
 unreal_pak/src/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..31c9f5c 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -160,11 +160,18 @@ impl Footer {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
         let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
 
+        let file_len = reader.seek(SeekFrom::End(0))?;
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // small archives can be shorter than the larger footers
+            if file_len < i64::unsigned_abs(offset) {
+                continue;
+            }
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
+                // anything further up is entry data that just looks like the magic
                 magic_offset = Some(offset);
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From 626fac4a5b4c306986b301a6df78599df7931751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:04 +0000
Subject: [PATCH 002/116] fix: use absolute block offsets in pak versions
 before RelativeChunkOffsets

Compressed v3 and v4 archives were written with relative block offsets, which
made loading their index underflow, and block bounds were never validated.
---
 unreal_pak/src/entry.rs  |  7 ++++++-
 unreal_pak/src/header.rs | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..a9ff145 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -101,7 +101,12 @@ where
 
             let block_count = (data.len() as f64 / block_size as f64).ceil() as usize;
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
-            let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
+            let mut header_len =
+                Header::calculate_header_len(pak_version, Some(block_count as u32));
+            // block offsets used to be absolute
+            if pak_version < PakVersion::RelativeChunkOffsets {
+                header_len += offset;
+            }
 
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..1e492ec 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -78,18 +78,18 @@ impl Header {
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
-                    compression_blocks_inner.push(Block {
-                        start: start_offset,
-                        size: end_offset - start_offset,
-                    });
+                    let size = end_offset
+                        .checked_sub(start_offset)
+                        .ok_or_else(PakError::entry_invalid)?;
+                    // convert old absolute to relative offsets
+                    let start = if pak_version < PakVersion::RelativeChunkOffsets {
+                        start_offset.saturating_sub(offset)
+                    } else {
+                        start_offset
+                    };
+                    compression_blocks_inner.push(Block { start, size });
                 }
                 compression_blocks = Some(compression_blocks_inner);
             }
-- 
2.43.0


From 9b8e7671f5f53fc7e2b4f359f9e6ea6e39222892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:04 +0000
Subject: [PATCH 003/116] fix: write the entry timestamp in pak version 1

It is read and accounted for in the header length, but was not written.
---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 1e492ec..a7da462 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        if pak_version <= PakVersion::Initial {
+            // timestamp
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From 1731ee65bff00ea45c7618db59804c7b08119c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:04 +0000
Subject: [PATCH 004/116] fix: write and read the compression methods of v8a
 pak footers

v8a archives were written without them and so could not be told apart from
other versions or decompressed.
---
 unreal_pak/src/compression.rs | 13 ++++++++-----
 unreal_pak/src/index.rs       |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index c6a2e21..e841b63 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -47,7 +47,7 @@ impl Compression {
         pak_version: PakVersion,
         compression: &CompressionMethods,
     ) -> Self {
-        if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             if compression_method_num == 0 {
                 Compression::None
             } else if compression_method_num <= 5 {
@@ -72,7 +72,7 @@ impl Compression {
     ) -> Result<u32, PakError> {
         match self {
             Self::Known(method) => {
-                if pak_version >= PakVersion::FnameBasedCompressionMethod {
+                if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
                     match compression
                         .0
                         .iter()
@@ -169,9 +169,12 @@ impl CompressionMethods {
         Ok(methods)
     }
 
-    pub fn as_bytes(&self) -> Vec<u8> {
-        // TODO UE4.22 only add 4
-        let num_entries = 5usize;
+    pub fn as_bytes(&self, pak_version: PakVersion) -> Vec<u8> {
+        // UE4.22 only has 4
+        let num_entries = match pak_version {
+            PakVersion::FnameBasedCompressionMethodInitial => 4usize,
+            _ => 5,
+        };
 
         let mut buf = Vec::with_capacity(num_entries * 0x20);
         for i in 0..num_entries {
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 31c9f5c..a6bfa43 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -195,7 +195,7 @@ impl Footer {
             reader.seek(SeekFrom::Current(1))?;
         }
 
-        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethod {
+        let compression_methods = if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
             CompressionMethods::from_reader(reader)?
         } else {
             CompressionMethods::default()
@@ -258,8 +258,8 @@ impl Footer {
         }
 
         // compression methods
-        if footer.pak_version >= PakVersion::FnameBasedCompressionMethod {
-            writer.write_all(footer.compression_methods.as_bytes().as_slice())?;
+        if footer.pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
+            writer.write_all(footer.compression_methods.as_bytes(footer.pak_version).as_slice())?;
         }
 
         Ok(())
-- 
2.43.0


From 2a73a2d22b1d9c39b16458b4617bc10a89fae736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:14 +0000
Subject: [PATCH 005/116] fix: do not allocate from untrusted sizes when
 reading pak files

A malformed count or size made reading abort instead of returning an error.
---
 unreal_pak/src/entry.rs  | 22 +++++++++++++---------
 unreal_pak/src/header.rs |  2 +-
 unreal_pak/src/index.rs  |  9 +++++++--
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index a9ff145..0441036 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use crate::compression::CompressionMethods;
 use crate::error::PakError;
@@ -28,13 +28,9 @@ where
     let header = Header::read(reader, pak_version, compression)?;
 
     match header.compression_method {
-        Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
-        }
+        Compression::None => read_data(reader, header.decompressed_size),
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -42,8 +38,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_data(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -55,6 +50,15 @@ where
     }
 }
 
+/// Read exactly `len` bytes without trusting `len` for the size of the allocation
+fn read_data<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    if reader.take(len).read_to_end(&mut data)? as u64 != len {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index a7da462..e914c18 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -75,7 +75,7 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     let start_offset = reader.read_u64::<LE>()?;
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index a6bfa43..9b7350e 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -28,7 +28,7 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
@@ -259,7 +259,12 @@ impl Footer {
 
         // compression methods
         if footer.pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
-            writer.write_all(footer.compression_methods.as_bytes(footer.pak_version).as_slice())?;
+            writer.write_all(
+                footer
+                    .compression_methods
+                    .as_bytes(footer.pak_version)
+                    .as_slice(),
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 954bd04f1f1da7855f9c369e59897b89c09c020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 006/116] fix: return errors for malformed lengths when reading
 strings, vectors and arrays

i32::MIN string lengths overflowed, negative lengths panicked and large vector
and array lengths aborted on allocation.
---
 unreal_helpers/src/read_ext.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..088d20e 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -34,8 +34,10 @@ impl<R: Read + Seek> UnrealReadExt for R {
     }
 
     fn read_vec(&mut self, len: usize) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0; len];
-        self.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        if self.by_ref().take(len as u64).read_to_end(&mut buf)? != len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
@@ -43,8 +45,9 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        let len = self.read_u32::<LE>()?;
+        let mut buf = Vec::new();
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
@@ -54,7 +57,7 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => (len.saturating_neg(), true),
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
@@ -109,7 +112,7 @@ pub fn read_fstring_len_noterm<R: Read + Seek>(
     len: i32,
     is_wide: bool,
 ) -> Result<Option<String>, FStringError> {
-    if !(-131072..=131072).contains(&len) {
+    if !(0..=131072).contains(&len) {
         return Err(FStringError::InvalidStringSize(
             len,
             reader.stream_position()?,
-- 
2.43.0


From a1ef9db8868237e0ad71151292d397f412e8b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 007/116] fix: count the terminator in the size write_fstring
 returns for wide strings

The size is used as the serialized size of string properties.
---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From b6ab0b598cb7f1331778239f5d86ee6328834c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 008/116] fix: reject non-hexadecimal text when parsing a Guid

Non-ASCII text panicked on a char boundary and signs were accepted as digits.
---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..d821abc 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|b| b.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From a7690c40f29dfb8f8d00c6f5152b64621e09c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 009/116] fix: take the game name literally in game_to_absolute

A dollar sign in it was expanded as a regex group reference.
---
 unreal_helpers/src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..b496cca 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 lazy_static! {
     static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
@@ -19,7 +19,7 @@ pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
     }
 
     let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
+        .replace(path, NoExpand(&(String::from(game_name) + "/Content/")))
         .to_string();
     let path = Path::new(&path_str);
     match path.extension() {
-- 
2.43.0


From 2611e272f4be49f7d22ae6dcdd9a6a7d83e641c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 010/116] fix: flush the writer when finishing a pak file

Errors of a buffered writer were lost, reporting success for a truncated pak.
---
 unreal_pak/src/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 9b7350e..a08e2d5 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -139,6 +139,8 @@ impl Index {
         writer.write_all(&index_data)?;
 
         Footer::write(writer, index.footer)?;
+        // buffered writers would otherwise lose errors when they are dropped
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From d342d061b73e9e7d39e6d0b2aa9d5166f4e66bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 011/116] fix: refuse encrypted indexes and entries

They were parsed as if they were plain, returning ciphertext as entry data.
---
 unreal_pak/src/entry.rs | 3 +++
 unreal_pak/src/index.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 0441036..eb77868 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -26,6 +26,9 @@ where
     reader.seek(SeekFrom::Start(offset))?;
 
     let header = Header::read(reader, pak_version, compression)?;
+    if header.flags.unwrap_or(0) & 1 != 0 {
+        return Err(PakError::enrcryption_unsupported());
+    }
 
     match header.compression_method {
         Compression::None => read_data(reader, header.decompressed_size),
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index a08e2d5..eed9238 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -21,6 +21,9 @@ pub(crate) struct Index {
 impl Index {
     pub(crate) fn read<R: Read + Seek>(mut reader: &mut R) -> Result<Self, PakError> {
         let footer = Footer::read(&mut reader)?;
+        if footer.index_encrypted == Some(true) {
+            return Err(PakError::enrcryption_unsupported());
+        }
 
         reader.seek(SeekFrom::Start(footer.index_offset))?;
 
-- 
2.43.0


From 4550743d66a08e242d13f4e9cf01a5d6451de059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 012/116] fix: refuse pak files of unknown versions

They were parsed as the newest version.
---
 unreal_pak/src/index.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index eed9238..6eed5e6 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -188,6 +188,9 @@ impl Footer {
         if magic_offset == -0xAC {
             pak_version.set_subversion();
         }
+        if pak_version == PakVersion::Invalid {
+            return Err(PakError::pak_version_unsupported(pak_version));
+        }
 
         let index_offset = reader.read_u64::<LE>()?;
         let index_size = reader.read_u64::<LE>()?;
-- 
2.43.0


From 78ab2bd51de7ef2e29bb66a27c1f8cf8b66ea706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 013/116] fix: report a compression block size of zero as
 invalid configuration

It panicked when splitting the data into blocks.
---
 unreal_pak/src/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index eb77868..d92a380 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -102,7 +102,7 @@ where
     let mut compression_blocks = None;
     let data = match compression_method {
         Compression::Known(_) => {
-            if pak_version < PakVersion::CompressionEncryption {
+            if pak_version < PakVersion::CompressionEncryption || block_size == 0 {
                 return Err(PakError::configuration_invalid());
             }
 
-- 
2.43.0


From d27b1d3f6bcac185d7b594390a2ce00d1653eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 014/116] fix: handle pak footers truncated before the
 compression methods

The remaining length underflowed.
---
 unreal_pak/src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index e841b63..ab0abf7 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -155,7 +155,7 @@ impl CompressionMethods {
         // This is why first the length of the remaining stream is determined and then only
         // the existing bytes read.
         let old_pos = reader.stream_position()?;
-        let remaining_len = reader.seek(SeekFrom::End(0))? - old_pos;
+        let remaining_len = reader.seek(SeekFrom::End(0))?.saturating_sub(old_pos);
         reader.seek(SeekFrom::Start(old_pos))?;
 
         let mut methods = Self::default();
-- 
2.43.0


From 0e45cb82926ae9d20e0149d715bbdeb997f8109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:27 +0000
Subject: [PATCH 015/116] fix: refuse to extract records outside of the output
 folder

Absolute record names and names containing .. were written wherever they
pointed to.
---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..cb0651e 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // never write outside of the output folder
+                        if !Path::new(file_name)
+                            .components()
+                            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Record {i} has an invalid path: {file_name:?}!");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 6318d12dc12766f428303b2647c74f7e848bb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:27 +0000
Subject: [PATCH 016/116] fix: fail when a directory to be packed cannot be
 read

Its files were left out of the pak silently, and a missing input directory
created an empty pak.
---
 unreal_pak_cli/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index cb0651e..63ceb62 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -196,7 +196,13 @@ fn main() {
             // Get all files and write them to the .pak file
             let files = WalkDir::new(&indir)
                 .into_iter()
-                .filter_map(|entry| entry.ok())
+                .map(|entry| match entry {
+                    Ok(entry) => entry,
+                    Err(err) => {
+                        eprintln!("Error reading directory {indir:?}! Error: {err}");
+                        exit(1);
+                    }
+                })
                 .filter(|entry| entry.file_type().is_file())
                 .collect::<Vec<_>>();
             //files.sort_unstable_by_key(|entry| entry.file_name().to_owned());
-- 
2.43.0


From 5a1f290af52ec485c8c34abbd7ca62ab4e5542e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 017/116] fix: keep IndexedMap consistent after an entry is
 removed

Removing an entry left the iteration positions of later entries stale, so the
next removal panicked or dropped the wrong entry from iteration, and the next
insertion took the index of an existing entry. Iterators reported the storage
slot instead of the insertion index.
---
 .../src/containers/indexed_map/mod.rs         | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..f861e45 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -568,17 +578,22 @@ where
             return &mut self.store[*storage_place];
         }
 
+        // indices of removed entries must not be handed out while later ones are in use
+        let index = match self.index_map.keys().next_back() {
+            Some(last) => last + 1,
+            None => 0,
+        };
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
@@ -680,6 +695,9 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        for moved in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*moved].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From b09236e63a7bf033825375fad51944033aa57d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:40 +0000
Subject: [PATCH 018/116] fix: do not hand out aliasing mutable references from
 IndexedMap iterators

Every step reborrowed the whole store mutably while references to earlier
values were still alive, which is undefined behaviour.
---
 .../src/containers/indexed_map/mod.rs         | 72 +++++++++----------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index f861e45..420cd05 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -74,6 +74,31 @@ where
     index_iter_map_index: usize,
 }
 
+impl<K, V> IndexedValue<K, V>
+where
+    K: Eq + Hash,
+{
+    fn split_mut(&mut self) -> (usize, &K, &mut V) {
+        (
+            self.index_map_index,
+            self.key_map_index.0.as_ref(),
+            &mut self.value,
+        )
+    }
+}
+
+/// Disjoint mutable references to all stored values by their store place
+fn values_by_store_place<K: Eq + Hash, V>(
+    store: &mut slab::Slab<IndexedValue<K, V>>,
+) -> Vec<Option<&mut IndexedValue<K, V>>> {
+    let mut values = Vec::new();
+    for (place, value) in store {
+        values.resize_with(place, || None);
+        values.push(Some(value));
+    }
+    values
+}
+
 impl<K, V> Clone for IndexedValue<K, V>
 where
     K: Clone + Eq + Hash,
@@ -213,7 +238,7 @@ pub struct IndexedMapIndexIteratorMut<'map, K, V>
 where
     K: Eq + Hash,
 {
-    store: &'map mut slab::Slab<IndexedValue<K, V>>,
+    values: Vec<Option<&'map mut IndexedValue<K, V>>>,
     index_iter: std::slice::Iter<'map, usize>,
 }
 
@@ -225,18 +250,7 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
-        let value = &mut self.store[*index];
-
-        // SAFETY:
-        // This is safe because a mutable reference to the same field is never returned twice,
-        // e.g. we never visit the same element twice.
-        let insertion_index = value.index_map_index;
-        let key = value.key_map_index.0.as_ref() as *const K;
-        let value = &mut value.value as *mut V;
-
-        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
-            value.as_mut().unwrap()
-        }))
+        self.values[*index].take().map(IndexedValue::split_mut)
     }
 }
 
@@ -246,18 +260,7 @@ where
 {
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
-        let value = &mut self.store[*index];
-
-        // SAFETY:
-        // This is safe because a mutable reference to the same field is never returned twice,
-        // e.g. we never visit the same element twice.
-        let insertion_index = value.index_map_index;
-        let key = value.key_map_index.0.as_ref() as *const K;
-        let value = &mut value.value as *mut V;
-
-        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
-            value.as_mut().unwrap()
-        }))
+        self.values[*index].take().map(IndexedValue::split_mut)
     }
 }
 
@@ -380,7 +383,7 @@ pub struct IndexedMapKeyIteratorMut<'map, K, V>
 where
     K: Eq + Hash,
 {
-    store: &'map mut slab::Slab<IndexedValue<K, V>>,
+    values: Vec<Option<&'map mut IndexedValue<K, V>>>,
     key_map_iter: std::collections::hash_map::Iter<'map, KeyItem<K>, usize>,
 }
 
@@ -393,18 +396,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let (_, value) = self.key_map_iter.next()?;
 
-        let value = &mut self.store[*value];
-
-        // SAFETY:
-        // This is safe because a mutable reference to the same field is never returned twice,
-        // e.g. we never visit the same element twice.
-        let insertion_index = value.index_map_index;
-        let key = value.key_map_index.0.as_ref() as *const K;
-        let value = &mut value.value as *mut V;
-
-        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
-            value.as_mut().unwrap()
-        }))
+        self.values[*value].take().map(IndexedValue::split_mut)
     }
 }
 
@@ -747,7 +739,7 @@ where
     /// Returns a mutable iterator over values in insertion order
     pub fn iter_mut(&'map mut self) -> IndexedMapIndexIteratorMut<'map, K, V> {
         IndexedMapIndexIteratorMut {
-            store: &mut self.store,
+            values: values_by_store_place(&mut self.store),
             index_iter: self.index_iter_map.iter(),
         }
     }
@@ -763,7 +755,7 @@ where
     /// Returns a mutable iterator over values in key order
     pub fn iter_key_mut(&'map mut self) -> IndexedMapKeyIteratorMut<'map, K, V> {
         IndexedMapKeyIteratorMut {
-            store: &mut self.store,
+            values: values_by_store_place(&mut self.store),
             key_map_iter: self.key_map.iter(),
         }
     }
-- 
2.43.0


From c0f7890971533288265f011fe4eda40c234cd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 019/116] fix: compare the values of IndexedMaps

Maps with the same keys and different values were equal, and maps with the
same content and a different history were not.
---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 420cd05..f009910 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -764,15 +764,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.iter().eq(other.iter())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From 809b03457ab937de2dd8d3ada17dad91dde00361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 020/116] fix: read the right bytes across the two parts of a
 Chain after seeking back

The second part kept its old position, so a read over the boundary returned
bytes from there. Seeking before the start succeeded instead of failing.
---
 .../unreal_asset_base/src/containers/chain.rs | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..17ec789 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -74,24 +74,34 @@ impl<C: Read + Seek> Read for Chain<C> {
     }
 }
 
+fn offset_from(base: u64, offset: i64) -> Result<u64> {
+    base.checked_add_signed(offset)
+        .ok_or_else(|| ErrorKind::InvalidInput.into())
+}
+
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
         match self.second.as_mut() {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            // reads can run over into the start of the second part
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
                     };
                     Ok(offset)
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
+                SeekFrom::End(offset) => {
+                    let end = self.first_len + self.second_len;
+                    self.seek(SeekFrom::Start(offset_from(end, offset)?))
+                }
                 SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                    self.seek(SeekFrom::Start(offset_from(self.pos, offset)?))
                 }
             },
             None => self.first.seek(pos),
-- 
2.43.0


From 062fd4fbd944b7c5f0636e439e229dfa5b7c3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 021/116] fix: do not find names that were changed through
 get_name_reference_mut

Looking up or adding the old name returned the index of the new one.
---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..99d223e 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -47,7 +47,11 @@ impl NameMap {
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
-        self.name_map_lookup.get_by_key(&s.finish()).copied()
+        self.name_map_lookup
+            .get_by_key(&s.finish())
+            .copied()
+            // names can be changed in place after they were added
+            .filter(|index| self.get_name_reference(*index) == name)
     }
 
     /// Add an FName reference
-- 
2.43.0


From 3b311644e018e97b821b9f38e1f73cb6a5aeb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 022/116] fix: return an error when decompressed data is
 shorter than expected

---
 unreal_asset/unreal_asset_base/src/compression/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/compression/mod.rs b/unreal_asset/unreal_asset_base/src/compression/mod.rs
index e7d7e68..68b0496 100644
--- a/unreal_asset/unreal_asset_base/src/compression/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/compression/mod.rs
@@ -1,6 +1,6 @@
 //! Unreal decompression
 
-use std::io::Read;
+use std::io::{self, Read};
 
 use flate2::bufread::{GzDecoder, ZlibDecoder};
 
@@ -55,13 +55,16 @@ pub fn decompress(
 ) -> Result<(), Error> {
     match method {
         CompressionMethod::None => {
-            decompressed.copy_from_slice(&compressed[..decompressed.len()]);
-            Ok(())
+            let mut compressed = compressed;
+            Ok(compressed.read_exact(decompressed)?)
         }
         CompressionMethod::Zlib => Ok(ZlibDecoder::new(compressed).read_exact(decompressed)?),
         CompressionMethod::Gzip => Ok(GzDecoder::new(compressed).read_exact(decompressed)?),
         CompressionMethod::Lz4 => {
-            lz4_flex::block::decompress_into(compressed, decompressed)?;
+            let size = lz4_flex::block::decompress_into(compressed, decompressed)?;
+            if size != decompressed.len() {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+            }
             Ok(())
         }
         CompressionMethod::Unknown(name) => Err(Error::UnknownCompressionMethod(name)),
-- 
2.43.0


From ab808f423824a9189f86f00ffcdb8fdd6eef7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 023/116] fix: keep the indices of names when creating a
 NameMap from a name batch

---
 unreal_asset/unreal_asset_base/src/containers/name_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index 99d223e..76844a1 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -36,7 +36,7 @@ impl NameMap {
         name_map.get_mut().name_map_index_list = Vec::with_capacity(name_batch.len());
 
         for name in name_batch {
-            name_map.get_mut().add_name_reference(name.clone(), false);
+            name_map.get_mut().add_name_reference(name.clone(), true);
         }
 
         name_map
-- 
2.43.0


From c58108f045c2391597e5fc1d2d0dec64218251f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 024/116] fix: do not allocate from untrusted lengths when
 reading arrays

---
 .../unreal_asset_base/src/reader/archive_reader.rs        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..640c065 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -196,7 +196,13 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        if length < 0 {
+            return Err(Error::invalid_file(format!(
+                "Invalid array length: {length}"
+            )));
+        }
+
+        let mut array = Vec::new();
         for _ in 0..length {
             array.push(getter(self)?);
         }
-- 
2.43.0


From 3da2227563229fe76f12a66c601937eab284f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 025/116] fix: do not allocate from untrusted lengths when
 reading properties and exports

---
 unreal_asset/src/asset_data.rs                    |  4 +---
 .../src/reader/archive_reader.rs                  | 15 +++++++++++++++
 .../unreal_asset_exports/src/class_export.rs      |  8 ++++----
 .../unreal_asset_exports/src/data_table_export.rs |  4 ++--
 .../unreal_asset_exports/src/raw_export.rs        |  3 +--
 .../unreal_asset_exports/src/struct_export.rs     | 12 +++++-------
 unreal_asset/unreal_asset_kismet/src/lib.rs       |  4 ++--
 .../src/cloth_lod_property.rs                     |  5 ++---
 .../src/delegate_property.rs                      |  2 +-
 .../src/gameplay_tag_container_property.rs        |  2 +-
 .../unreal_asset_properties/src/map_property.rs   |  2 +-
 .../src/movies/movie_scene_evaluation.rs          |  4 ++--
 .../movie_scene_event_parameters_property.rs      |  3 +--
 .../movies/movie_scene_float_channel_property.rs  |  4 ++--
 .../src/movies/movie_scene_segment_property.rs    |  2 +-
 .../src/per_platform_property.rs                  |  6 +++---
 .../src/raw_struct_property.rs                    |  3 +--
 .../src/sampler_property.rs                       |  8 ++++----
 .../src/unknown_property.rs                       |  3 +--
 .../src/world_tile_property.rs                    |  2 +-
 20 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index f51517d..83ed8b7 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -423,9 +423,7 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                 new_array_overrides,
             ));
         } else if let Some(normal_export) = export.get_normal_export_mut() {
-            let mut extras = vec![0u8; extras_len as usize];
-            self.read_exact(&mut extras)?;
-            normal_export.extras = extras;
+            normal_export.extras = self.read_bytes(extras_len)?;
         }
 
         Ok(ReadExport::new(
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 640c065..6b2cdda 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -220,6 +220,21 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         self.read_array_with_length(length, getter)
     }
 
+    /// Read `length` bytes
+    ///
+    /// The length isn't trusted, nothing is allocated for bytes that aren't in this archive
+    fn read_bytes(&mut self, length: i64) -> Result<Vec<u8>, Error> {
+        let length = u64::try_from(length)
+            .map_err(|_| Error::invalid_file(format!("Invalid data length: {length}")))?;
+
+        let mut bytes = Vec::new();
+        Read::take(&mut *self, length).read_to_end(&mut bytes)?;
+        if (bytes.len() as u64) < length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(bytes)
+    }
+
     /// Read an FString
     fn read_fstring(&mut self) -> Result<Option<String>, Error>;
     /// Read an FString with a `SerializedNameHeader`
diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..2a4cb5b 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -78,8 +78,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
     ) -> Result<Self, Error> {
         let struct_export = StructExport::from_base(base, asset)?;
 
-        let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
+        let num_func_index_entries = asset.read_i32::<LE>()?;
+        let mut func_map = IndexedMap::new();
         for _i in 0..num_func_index_entries {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
@@ -117,8 +117,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         {
             asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
         }
-        let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
+        let num_interfaces = asset.read_i32::<LE>()?;
+        let mut interfaces = Vec::new();
         for _i in 0..num_interfaces {
             interfaces.push(SerializedInterfaceReference::new(
                 PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..e07f51f 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -60,8 +60,8 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
         }
 
         asset.read_i32::<LE>()?;
-        let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
+        let num_entries = asset.read_i32::<LE>()?;
+        let mut data = Vec::new();
 
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..fb5e77e 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size)?;
 
         Ok(RawExport {
             base_export: base,
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..51b19c8 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -56,8 +56,8 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
         let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
-        for _i in 0..num_index_entries as usize {
+        let mut children = Vec::new();
+        for _i in 0..num_index_entries {
             children.push(PackageIndex::new(asset.read_i32::<LE>()?));
         }
 
@@ -66,8 +66,8 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         {
             true => {
                 let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
-                for _i in 0..num_props as usize {
+                let mut props = Vec::new();
+                for _i in 0..num_props {
                     props.push(FProperty::new(asset)?);
                 }
                 props
@@ -89,9 +89,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
-                Some(data)
+                Some(asset.read_bytes(script_storage_size as i64)?)
             }
         };
 
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..1dda42e 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -762,7 +762,7 @@ impl KismetPropertyPointer {
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
             let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
+            let mut names = Vec::new();
             for _i in 0..num_entries as usize {
                 names.push(asset.read_fname()?);
             }
@@ -3117,7 +3117,7 @@ impl ExSwitchValue {
         let end_goto_offset = asset.read_u32::<LE>()?;
         let index_term = Box::new(KismetExpression::new(asset)?);
 
-        let mut cases = Vec::with_capacity(num_cases as usize);
+        let mut cases = Vec::new();
         for _i in 0..num_cases as usize {
             let term_a = KismetExpression::new(asset)?;
             let term_b = asset.read_u32::<LE>()?;
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..3de1c8b 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -133,14 +133,13 @@ impl ClothLodDataProperty {
         )?;
 
         let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
+        let mut transition_up_skin_data = Vec::new();
         for _ in 0..transition_up_skin_data_len {
             transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
 
         let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
+        let mut transition_down_skin_data = Vec::new();
         for _ in 0..transition_down_skin_data_len {
             transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..a5c74a2 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -106,7 +106,7 @@ macro_rules! impl_multicast {
                 let property_guid = optional_guid!(asset, include_header);
 
                 let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
+                let mut value = Vec::new();
                 for _ in 0..length {
                     value.push(Delegate::new(
                         PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..fc085a0 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -31,7 +31,7 @@ impl GameplayTagContainerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
+        let mut value = Vec::new();
         for _i in 0..length as usize {
             value.push(asset.read_fname()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..10846f3 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -156,7 +156,7 @@ impl MapProperty {
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
         for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
+            let mut vec = Vec::new();
             vec.push(MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..3235506 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -136,14 +136,14 @@ where
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
         let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
+        let mut entries = Vec::new();
 
         for _ in 0..entries_amount {
             entries.push(FEntry::new(asset)?);
         }
 
         let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
+        let mut items = Vec::new();
 
         for _ in 0..entries_amount {
             items.push(item_reader(asset)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..c454d5e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as i64)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..47f493f 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -46,7 +46,7 @@ impl MovieSceneFloatChannel {
         let times_struct_length = asset.read_i32::<LE>()?;
         let times_length = asset.read_i32::<LE>()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
+        let mut times = Vec::new();
         for _ in 0..times_length {
             times.push(FrameNumber::new(asset.read_i32::<LE>()?));
         }
@@ -54,7 +54,7 @@ impl MovieSceneFloatChannel {
         let values_struct_length = asset.read_i32::<LE>()?;
         let values_length = asset.read_i32::<LE>()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
+        let mut values = Vec::new();
         for _ in 0..values_length {
             //todo: clangwin64 is always false?
             values.push(MovieSceneFloatValue::new(asset, false)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..ad1bc93 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -60,7 +60,7 @@ impl MovieSceneSegment {
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
         let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
+        let mut impls = Vec::new();
 
         for _ in 0..impls_length {
             let mut properties_list = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..8392d05 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -63,7 +63,7 @@ impl PerPlatformBoolProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_bool()?);
@@ -107,7 +107,7 @@ impl PerPlatformIntProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_i32::<LE>()?);
@@ -151,7 +151,7 @@ impl PerPlatformFloatProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(OrderedFloat(asset.read_f32::<LE>()?));
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..e65ed90 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..c199c44 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -71,13 +71,13 @@ impl WeightedRandomSamplerProperty {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
@@ -135,13 +135,13 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
         let property_guid = optional_guid!(asset, include_header);
 
         let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
         let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..0cfb9b2 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(UnknownProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..92ec18b 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -186,7 +186,7 @@ impl FWorldTileInfo {
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
             let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
+            let mut list = Vec::new();
             for _i in 0..num_entries {
                 list.push(FWorldTileLODInfo::new(asset)?);
             }
-- 
2.43.0


From 0e80388be97dd3a95d48c5ac2001753b35137ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 026/116] fix: do not hold the name map borrowed while reading
 a property

---
 unreal_asset/unreal_asset_properties/src/lib.rs          | 8 +++++---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..369b203 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -639,8 +639,10 @@ impl Property {
             return Ok(EmptyProperty::new(type_name.clone(), name, ancestry).into());
         }
 
-        type_name.get_content(|ty| {
-            Ok::<Property, Error>(match ty {
+        // the name map must not stay borrowed while the property is being read
+        let ty = type_name.get_owned_content();
+        {
+            Ok::<Property, Error>(match ty.as_str() {
                 "BoolProperty" => BoolProperty::new(
                     asset,
                     name,
@@ -1324,7 +1326,7 @@ impl Property {
                 )?
                 .into(),
             })
-        })
+        }
     }
 
     /// Writes a property to an ArchiveWriter
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 10846f3..3624df5 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -51,7 +51,7 @@ impl MapProperty {
         is_key: bool,
     ) -> Result<Property, Error> {
         let new_ancestry = ancestry.with_parent(name.clone());
-        type_name.get_content(|ty| match ty {
+        match type_name.get_owned_content().as_str() {
             "StructProperty" => {
                 let mut struct_type = None;
 
@@ -113,7 +113,7 @@ impl MapProperty {
                 0,
                 false,
             ),
-        })
+        }
     }
 
     /// Read a `MapProperty` from an asset
-- 
2.43.0


From 6e61e4094cdbbd0d9d190673cd999491801aaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 027/116] fix: keep all keys to remove of a MapProperty

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 3624df5..926daf7 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -155,9 +155,8 @@ impl MapProperty {
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::new();
-            vec.push(MapProperty::map_type_to_class(
+        for _ in 0..num_keys_to_remove {
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,8 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From f2e778e0b4c61b2a0f6b5df91b83f5b46497aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 028/116] fix: write empty structs whose type has custom
 serialization

---
 .../unreal_asset_properties/src/struct_property.rs   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/struct_property.rs b/unreal_asset/unreal_asset_properties/src/struct_property.rs
index 01de970..b9b5790 100644
--- a/unreal_asset/unreal_asset_properties/src/struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/struct_property.rs
@@ -207,7 +207,11 @@ impl StructProperty {
         } else {
             let mut values = Vec::new();
             let mut unversioned_header = UnversionedHeader::new(asset)?;
-            let new_ancestry = ancestry.with_parent(struct_type.clone().unwrap());
+            let new_ancestry = ancestry.with_parent(
+                struct_type
+                    .clone()
+                    .unwrap_or_else(|| FName::from_slice("Generic")),
+            );
             while let Some(property) = Property::new(
                 asset,
                 new_ancestry.clone(),
@@ -283,6 +287,10 @@ impl StructProperty {
             }
         }
 
+        if self.value.is_empty() && !self.serialize_none {
+            return Ok(0);
+        }
+
         if has_custom_serialization {
             if self.value.len() != 1 {
                 return Err(PropertyError::invalid_struct(
@@ -295,8 +303,6 @@ impl StructProperty {
                 .into());
             }
             self.value[0].write(asset, false)
-        } else if self.value.is_empty() && !self.serialize_none {
-            Ok(0)
         } else {
             let begin = asset.position();
 
-- 
2.43.0


From 3204686b6be00d1a16368541a58e57bd6508c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 029/116] fix: write the struct guid of struct arrays

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..3b3ca9e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
-- 
2.43.0


From 4bafa8c36e5d77c3e5e7fec6a304337ae5247f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 030/116] fix: write the size of struct arrays in versions
 without property guids

---
 .../unreal_asset_properties/src/array_property.rs        | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b3ca9e..073b2a4 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -294,6 +294,7 @@ impl ArrayProperty {
                     asset.write_u8(0)?;
                 }
             }
+            let data_begin = asset.position();
 
             for property in &self.value {
                 let struct_property: &StructProperty = match property {
@@ -308,15 +309,9 @@ impl ArrayProperty {
 
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 let length_loc = length_loc.expect("Corrupted memory");
-                let full_len = asset.position() - length_loc;
                 let new_loc = asset.position();
                 asset.seek(SeekFrom::Start(length_loc))?;
-                let length = full_len
-                    - 32
-                    - match include_header {
-                        true => 1,
-                        false => 0,
-                    };
+                let length = new_loc - data_begin;
 
                 asset.write_i32::<LE>(length as i32)?;
                 asset.seek(SeekFrom::Start(new_loc))?;
-- 
2.43.0


From 39a1592bda2eb142209574f7db518a4071f78a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:02 +0000
Subject: [PATCH 031/116] fix: keep the constant flag of material inputs

---
 .../src/material_input_property.rs            | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/material_input_property.rs b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
index aba95b2..45dbed0 100644
--- a/unreal_asset/unreal_asset_properties/src/material_input_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
@@ -32,6 +32,8 @@ pub struct ColorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used (serialized as an integer)
+    pub use_constant: i32,
     /// Color value
     pub value: ColorProperty,
 }
@@ -50,6 +52,8 @@ pub struct ScalarMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used (serialized as an integer)
+    pub use_constant: i32,
     /// Scalar value
     pub value: OrderedFloat<f32>,
 }
@@ -68,6 +72,8 @@ pub struct ShadingModelMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used (serialized as an integer)
+    pub use_constant: i32,
     /// Shading model value
     pub value: u32,
 }
@@ -86,6 +92,8 @@ pub struct VectorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used (serialized as an integer)
+    pub use_constant: i32,
     /// Vector value
     pub value: VectorProperty,
 }
@@ -104,6 +112,8 @@ pub struct Vector2MaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Whether the constant value is used (serialized as an integer)
+    pub use_constant: i32,
     /// Vector2D value
     pub value: Vector2DProperty,
 }
@@ -188,7 +198,7 @@ impl ColorMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = ColorProperty::new(
             asset,
@@ -204,6 +214,7 @@ impl ColorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -217,7 +228,7 @@ impl PropertyTrait for ColorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -234,7 +245,7 @@ impl ScalarMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = asset.read_f32::<LE>()?;
 
@@ -244,6 +255,7 @@ impl ScalarMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value: OrderedFloat(value),
         })
     }
@@ -257,7 +269,7 @@ impl PropertyTrait for ScalarMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_f32::<LE>(self.value.0)?;
         Ok(exp_len + size_of::<f32>() + size_of::<i32>())
     }
@@ -275,7 +287,7 @@ impl ShadingModelMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = asset.read_u32::<LE>()?;
         Ok(ShadingModelMaterialInputProperty {
             name,
@@ -283,6 +295,7 @@ impl ShadingModelMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -296,7 +309,7 @@ impl PropertyTrait for ShadingModelMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_u32::<LE>(self.value)?;
         Ok(exp_len + size_of::<u32>() + size_of::<i32>())
     }
@@ -314,7 +327,7 @@ impl VectorMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = VectorProperty::new(
             asset,
             name.clone(),
@@ -328,6 +341,7 @@ impl VectorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -341,7 +355,7 @@ impl PropertyTrait for VectorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -359,7 +373,7 @@ impl Vector2MaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = Vector2DProperty::new(
             asset,
             name.clone(),
@@ -373,6 +387,7 @@ impl Vector2MaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -386,7 +401,7 @@ impl PropertyTrait for Vector2MaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
-- 
2.43.0


From 03c9f83b8fe62ea7bbe021ce5c1445aa95c584a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:16 +0000
Subject: [PATCH 032/116] fix: do not write property guids inside of boxes

---
 unreal_asset/unreal_asset_properties/src/vector_property.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/vector_property.rs b/unreal_asset/unreal_asset_properties/src/vector_property.rs
index 54bd823..e00cfbc 100644
--- a/unreal_asset/unreal_asset_properties/src/vector_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/vector_property.rs
@@ -548,8 +548,7 @@ impl PropertyTrait for BoxProperty {
         include_header: bool,
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
     }
@@ -587,8 +586,7 @@ impl PropertyTrait for Box2DProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
 
-        let total_size =
-            self.v1.write(asset, include_header)? + self.v2.write(asset, include_header)?;
+        let total_size = self.v1.write(asset, false)? + self.v2.write(asset, false)?;
 
         asset.write_bool(self.is_valid)?;
         Ok(total_size + size_of::<bool>())
-- 
2.43.0


From 265d849df780145dd35f3972cf7a4ee3f07f0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:16 +0000
Subject: [PATCH 033/116] fix: write the sub face index of font data

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From a8766fa72706efb509800363785b4e16c9f89b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:16 +0000
Subject: [PATCH 034/116] fix: write the weight of cloth vertices once

---
 .../src/cloth_lod_property.rs                     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 3de1c8b..087166d 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -16,6 +16,8 @@ pub struct MeshToMeshVertData {
     pub source_mesh_vert_indices: Vec<u16>,
     /// Weight
     pub weight: OrderedFloat<f32>,
+    /// Unused, kept as it was read
+    pub padding: u32,
 }
 
 impl MeshToMeshVertData {
@@ -62,7 +64,7 @@ impl MeshToMeshVertData {
         }
 
         let weight = asset.read_f32::<LE>()?;
-        asset.read_u32::<LE>()?;
+        let padding = asset.read_u32::<LE>()?;
 
         Ok(MeshToMeshVertData {
             position_bary_coords_and_dist,
@@ -70,6 +72,7 @@ impl MeshToMeshVertData {
             tangent_bary_coords_and_dist,
             source_mesh_vert_indices,
             weight: OrderedFloat(weight),
+            padding,
         })
     }
 
@@ -89,13 +92,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(self.padding)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From 442dd71274ebbbce9fc1792e06cdbdceaea2518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:36 +0000
Subject: [PATCH 035/116] fix: read all items of an evaluation tree

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 3235506..e9c7e59 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::new();
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From e8a2ea6199ebbf604f69acfa1552e3f05d682dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:11 +0000
Subject: [PATCH 036/116] fix: write the empty type name of null movie scene
 pointers

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs     | 5 +++--
 .../movies/movie_scene_track_implementation_ptr_property.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..0e22edf 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -41,8 +41,9 @@ impl MovieSceneEvalTemplatePtrProperty {
             0,
         )?;
 
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..b96d387 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -41,8 +41,9 @@ impl MovieSceneTrackImplementationPtrProperty {
             0,
         )?;
 
-        if type_name.value.is_some() {
-            value.push(type_name.into());
+        let has_type_name = type_name.value.is_some();
+        value.push(type_name.into());
+        if has_type_name {
             let mut unversioned_header = UnversionedHeader::new(asset)?;
             while let Some(data) = Property::new(
                 asset,
-- 
2.43.0


From e33909b75476d8e99d37815146016807098eb393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:11 +0000
Subject: [PATCH 037/116] fix: write the type of unique net ids after their
 size

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..4f44dad 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -70,6 +70,7 @@ impl PropertyTrait for UniqueNetIdProperty {
 
         match &self.value {
             Some(value) => {
+                asset.write_i32::<LE>(0)?; // initial length
                 let mut length = 3 * size_of::<i32>();
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
-- 
2.43.0


From c235e1d1e6dfa12f124cf7f818de2bb16baf1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:29 +0000
Subject: [PATCH 038/116] fix: take the components of an argb color in the
 right order

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From 89f13c79b98667c10c508f8f75d2a87c323c37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:10 +0000
Subject: [PATCH 039/116] fix: write the legacy header of version -4 assets the
 way it is read

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..2855c99 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1006,7 +1006,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From 8f71c06733d0e760adcc99ef4db876b89e25843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:10 +0000
Subject: [PATCH 040/116] fix: write the compatible engine version of assets

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 2855c99..16484c0 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1090,7 +1090,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From f70d5f0b76fbb78762942498d4e872a3ae19b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:10 +0000
Subject: [PATCH 041/116] fix: do not panic on assets with a single chunk id

---
 unreal_asset/src/asset.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 16484c0..548914f 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -712,8 +712,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            self.chunk_ids = vec![];
-            self.chunk_ids[0] = self.read_i32::<LE>()?;
+            self.chunk_ids = vec![self.read_i32::<LE>()?];
         }
 
         if self.asset_data.object_version
@@ -1119,7 +1118,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         } else if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE
         {
-            cursor.write_i32::<LE>(self.chunk_ids[0])?;
+            cursor.write_i32::<LE>(self.chunk_ids.first().copied().unwrap_or_default())?;
         }
 
         if self.asset_data.object_version
-- 
2.43.0


From aa7384bfc4512fd087240ba6dbaf9280c7b90752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:37 +0000
Subject: [PATCH 042/116] fix: do not panic when getting an import right after
 the last one

---
 unreal_asset/src/asset.rs                | 7 +------
 unreal_asset/src/asset_archive_writer.rs | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 548914f..e10a69e 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -825,12 +825,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        self.imports.get(!index.index as usize).cloned()
     }
 
     /// Get an export
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..0fb73b3 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,12 +55,7 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        self.imports.get(!index.index as usize).cloned()
     }
 }
 
-- 
2.43.0


From f3d6592c0f73f68c3ab7c85f8c797f6e48deb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:37 +0000
Subject: [PATCH 043/116] fix: read the hash of empty names

---
 unreal_asset/unreal_asset_base/src/reader/archive_reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 6b2cdda..7fbde9e 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -110,7 +110,6 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         .ok_or_else(|| Error::no_data("name_map_string is None".to_string()))?;
 
         let hash = match self.get_object_version() >= ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED
-            && !string.is_empty()
         {
             true => self.read_u32::<LE>()?,
             false => 0,
-- 
2.43.0


From 5a7ec6998ae87ec117c3ef50c69c00f9c76f9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:37 +0000
Subject: [PATCH 044/116] fix: do not add names to the name map while reading
 properties

---
 .../unreal_asset_properties/src/array_property.rs |  2 +-
 .../src/cloth_lod_property.rs                     | 15 +++------------
 .../movie_scene_eval_template_ptr_property.rs     |  2 +-
 ...vie_scene_track_implementation_ptr_property.rs |  2 +-
 4 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 073b2a4..8b72c6e 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -155,7 +155,7 @@ impl ArrayProperty {
                 .get_content(|name| asset.get_array_struct_type_override().get_by_key(name))
                 .cloned()
             {
-                full_type = asset.add_fname(&type_override);
+                full_type = FName::from_slice(&type_override);
             }
 
             if num_entries == 0 {
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 087166d..eaa4240 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -27,10 +27,7 @@ impl MeshToMeshVertData {
     ) -> Result<Self, Error> {
         let position_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("PositionBaryCoordsAndDist"),
+            FName::from_slice("PositionBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -38,10 +35,7 @@ impl MeshToMeshVertData {
 
         let normal_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("NormalBaryCoordsAndDist"),
+            FName::from_slice("NormalBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -49,10 +43,7 @@ impl MeshToMeshVertData {
 
         let tangent_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("TangentBaryCoordsAndDist"),
+            FName::from_slice("TangentBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 0e22edf..9be980b 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index b96d387..50b2377 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
-- 
2.43.0


From 7d8c9fd14adbc50ece9a13cd22bf92b5e2832eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:18 +0000
Subject: [PATCH 045/116] fix: read as many preload dependencies as an asset
 declares

---
 unreal_asset/src/asset.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index e10a69e..f8a5ee5 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -91,6 +91,9 @@ pub struct UAssetExportMapEntry {
     pub serialization_before_create_dependencies: Vec<PackageIndex>,
     /// Dependencies that should be created before this export is created
     pub create_before_create_dependencies: Vec<PackageIndex>,
+
+    /// Serialized counts of the dependencies above, in order
+    dependency_counts: [i32; 4],
 }
 
 impl UAssetExportMapEntry {
@@ -149,14 +152,9 @@ impl UAssetExportMapEntry {
             >= ObjectVersion::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS
         {
             entry.first_export_dependency_offset = archive.read_i32::<LE>()?;
-            entry.serialization_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_serialization_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.serialization_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
-            entry.create_before_create_dependencies =
-                Vec::with_capacity(archive.read_i32::<LE>()? as usize);
+            for count in &mut entry.dependency_counts {
+                *count = archive.read_i32::<LE>()?;
+            }
         }
 
         Ok(entry)
@@ -312,6 +310,7 @@ impl UAssetExportMapEntry {
                 .serialization_before_create_dependencies
                 .clone(),
             create_before_create_dependencies: b.create_before_create_dependencies.clone(),
+            ..Default::default()
         }
     }
 }
@@ -952,16 +951,17 @@ impl<'a, C: Read + Seek> Asset<C> {
                     entry.first_export_dependency_offset as i64 * size_of::<i32>() as i64,
                 ))?;
 
-                let mut read_deps = |list: &mut Vec<PackageIndex>| -> Result<(), Error> {
-                    for _ in 0..list.capacity() {
+                let lists = [
+                    &mut entry.serialization_before_serialization_dependencies,
+                    &mut entry.create_before_serialization_dependencies,
+                    &mut entry.serialization_before_create_dependencies,
+                    &mut entry.create_before_create_dependencies,
+                ];
+                for (list, count) in lists.into_iter().zip(entry.dependency_counts) {
+                    for _ in 0..count {
                         list.push(PackageIndex::new(self.raw_reader.read_i32::<LE>()?))
                     }
-                    Ok(())
-                };
-                read_deps(&mut entry.serialization_before_serialization_dependencies)?;
-                read_deps(&mut entry.create_before_serialization_dependencies)?;
-                read_deps(&mut entry.serialization_before_create_dependencies)?;
-                read_deps(&mut entry.create_before_create_dependencies)?;
+                }
             }
             self.seek(SeekFrom::Start(self.preload_dependency_offset as u64))?;
         }
-- 
2.43.0


From 9d1eb2655bea4221cf1bf1cfdff7b3af31da5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:18 +0000
Subject: [PATCH 046/116] fix: do not allocate from untrusted counts when
 reading assets

---
 unreal_asset/src/asset.rs                           | 13 ++++++-------
 .../unreal_asset_base/src/reader/archive_reader.rs  |  6 +++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index f8a5ee5..a750b3f 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -890,7 +890,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             }
         }
 
-        let mut export_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+        let mut export_map = Vec::new();
         if self.export_offset > 0 {
             self.seek(SeekFrom::Start(self.export_offset as u64))?;
             for _i in 0..self.asset_data.summary.export_count {
@@ -904,14 +904,14 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.depends_offset > 0
             || depends_offset_zero_version_range.contains(&self.get_object_version())
         {
-            let mut depends_map = Vec::with_capacity(self.asset_data.summary.export_count as usize);
+            let mut depends_map = Vec::new();
 
             // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
             if self.depends_offset > 0 {
                 self.seek(SeekFrom::Start(self.depends_offset as u64))?;
             }
 
-            for _i in 0..self.asset_data.summary.export_count as usize {
+            for _i in 0..self.asset_data.summary.export_count {
                 let size = self.read_i32::<LE>()?;
                 let mut data: Vec<i32> = Vec::new();
                 for _j in 0..size {
@@ -923,12 +923,11 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         if self.soft_package_reference_offset > 0 {
-            let mut soft_package_reference_list =
-                Vec::with_capacity(self.soft_package_reference_count as usize);
+            let mut soft_package_reference_list = Vec::new();
 
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
-            for _i in 0..self.soft_package_reference_count as usize {
+            for _i in 0..self.soft_package_reference_count {
                 if let Some(reference) = self.read_fstring()? {
                     soft_package_reference_list.push(reference);
                 }
@@ -980,7 +979,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
                 let next_starting = match i < (map_len - 1) {
                     true => serial_offsets[i + 1],
-                    false => self.data_length()? - 4,
+                    false => self.data_length()?.saturating_sub(4),
                 };
 
                 let export = self.read_export(base_export, next_starting)?;
diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 7fbde9e..298d8d7 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -130,7 +130,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
 
         let hashes = match hash_version {
             hash if hash == enums::HASH_VERSION_CITYHASH64 => {
-                let mut hashes = Vec::with_capacity(num_strings as usize);
+                let mut hashes = Vec::new();
                 for _ in 0..num_strings {
                     hashes.push(self.read_u64::<LE>()?); // cityhash64 of crc::to_lower_string
                 }
@@ -142,12 +142,12 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
             ))),
         }?;
 
-        let mut name_headers = Vec::with_capacity(num_strings as usize);
+        let mut name_headers = Vec::new();
         for _ in 0..num_strings {
             name_headers.push(SerializedNameHeader::read(self)?);
         }
 
-        let mut name_batch = Vec::with_capacity(num_strings as usize);
+        let mut name_batch = Vec::new();
 
         for name_header in name_headers {
             name_batch.push(self.read_name_map_string(Some(name_header)).map(|e| e.0)?);
-- 
2.43.0


From e44e4f4dbc261f10419565c1b002e02c4b6e5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:18 +0000
Subject: [PATCH 047/116] fix: keep empty soft package references

---
 unreal_asset/src/asset.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index a750b3f..135edbf 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -928,9 +928,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             self.seek(SeekFrom::Start(self.soft_package_reference_offset as u64))?;
 
             for _i in 0..self.soft_package_reference_count {
-                if let Some(reference) = self.read_fstring()? {
-                    soft_package_reference_list.push(reference);
-                }
+                soft_package_reference_list.push(self.read_fstring()?.unwrap_or_default());
             }
             self.soft_package_reference_list = Some(soft_package_reference_list);
         }
@@ -1286,7 +1284,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         if let Some(ref package_references) = self.soft_package_reference_list {
             for reference in package_references {
-                serializer.write_fstring(Some(reference))?;
+                serializer.write_fstring((!reference.is_empty()).then_some(reference.as_str()))?;
             }
         }
 
-- 
2.43.0


From 0d96787ea1ff918e7aaaac01f4301f4f3f4ea6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:24 +0000
Subject: [PATCH 048/116] fix: do not hold the name map borrowed while reading
 an export

---
 unreal_asset/src/asset_data.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset_data.rs b/unreal_asset/src/asset_data.rs
index 83ed8b7..60109cb 100644
--- a/unreal_asset/src/asset_data.rs
+++ b/unreal_asset/src/asset_data.rs
@@ -339,8 +339,10 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
         let mut new_map_value_overrides = IndexedMap::new();
         let new_array_overrides = IndexedMap::new();
 
-        let mut export: Export<Index> = export_class_type.get_content(|class| {
-            Ok::<Export<Index>, Error>(match class {
+        // the name map can't stay borrowed, reading an export may need to add names to it
+        let class = export_class_type.get_owned_content();
+        let mut export: Export<Index> = {
+            match class.as_str() {
                 "Level" => LevelExport::from_base(&base_export, self)?.into(),
                 "World" => WorldExport::from_base(&base_export, self)?.into(),
                 "UserDefinedStruct" => {
@@ -406,8 +408,8 @@ pub trait ExportReaderTrait<Index: PackageIndexTrait>:
                         NormalExport::from_base(&base_export, self)?.into()
                     }
                 }
-            })
-        })?;
+            }
+        };
 
         let extras_len = next_starting as i64 - self.position() as i64;
         if extras_len < 0 {
-- 
2.43.0


From db4dcd5c246eedef65d7a2dfab041d94c9407585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:24 +0000
Subject: [PATCH 049/116] fix: do not read bytecode past its end

---
 unreal_asset/unreal_asset_exports/src/struct_export.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 51b19c8..3243b66 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -116,6 +116,12 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         while (asset.position() - start_offset) < storage_size as u64 {
             code.push(KismetExpression::new(asset)?);
         }
+
+        if asset.position() - start_offset != storage_size as u64 {
+            return Err(Error::invalid_file(
+                "Bytecode is longer than its size".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0


From 61d8c673f1986e143b4e042ad2964d21bff1b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:24 +0000
Subject: [PATCH 050/116] fix: do not write custom versions that are not in the
 asset

---
 unreal_asset/src/asset.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 135edbf..22b0712 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -448,6 +448,10 @@ pub struct Asset<C: Read + Seek> {
 
     /// Parent class
     parent_class: Option<ParentClassInfo>,
+
+    /// Custom versions that aren't in the asset file, but are implied by the engine version or mappings
+    #[container_ignore]
+    implied_custom_versions: Vec<CustomVersion>,
 }
 
 impl<'a, C: Read + Seek> Asset<C> {
@@ -515,6 +519,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             depends_map: None,
             soft_package_reference_list: None,
             parent_class: None,
+            implied_custom_versions: Vec::new(),
         };
         asset.set_engine_version(engine_version);
         asset.asset_data.mappings = mappings;
@@ -587,10 +592,20 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.legacy_file_version <= -2 {
             // TODO: support for enum-based custom versions
             let old_container = self.asset_data.summary.custom_versions.clone();
-            self.asset_data.summary.custom_versions = self.read_custom_version_container(
+            let serialized_count = self.read_i32::<LE>()?;
+            self.seek(SeekFrom::Current(-(size_of::<i32>() as i64)))?;
+            let custom_versions = self.read_custom_version_container(
                 self.get_custom_version_serialization_format(),
                 Some(&old_container),
             )?;
+
+            // the versions that are in the file come first
+            self.implied_custom_versions = custom_versions
+                .iter()
+                .skip(serialized_count.max(0) as usize)
+                .cloned()
+                .collect();
+            self.asset_data.summary.custom_versions = custom_versions;
         }
 
         // read header offset
@@ -1021,8 +1036,15 @@ impl<'a, C: Read + Seek> Asset<C> {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => {
-                    cursor.write_i32::<LE>(self.asset_data.summary.custom_versions.len() as i32)?;
-                    for custom_version in &self.asset_data.summary.custom_versions {
+                    let custom_versions = self
+                        .asset_data
+                        .summary
+                        .custom_versions
+                        .iter()
+                        .filter(|e| !self.implied_custom_versions.contains(e))
+                        .collect::<Vec<_>>();
+                    cursor.write_i32::<LE>(custom_versions.len() as i32)?;
+                    for custom_version in custom_versions {
                         cursor.write_guid(&custom_version.guid)?;
                         cursor.write_i32::<LE>(custom_version.version)?;
                     }
-- 
2.43.0


From 53a19f623208140e71f2caf8b372420d18e5d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:49 +0000
Subject: [PATCH 051/116] fix: write the names that are added while writing an
 asset

---
 unreal_asset/src/asset.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 22b0712..c79b562 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1185,6 +1185,23 @@ impl<'a, C: Read + Seek> Asset<C> {
 
     /// Write asset data
     pub fn write_data<W: Read + Seek + Write>(
+        &self,
+        cursor: &mut W,
+        mut uexp_cursor: Option<&mut W>,
+    ) -> Result<(), Error> {
+        loop {
+            let name_count = self.name_map.get_ref().get_name_map_index_list().len();
+            self.write_data_once(cursor, uexp_cursor.as_deref_mut())?;
+
+            // writing an export may add names, in that case the name map has to be written again
+            if self.name_map.get_ref().get_name_map_index_list().len() == name_count {
+                return Ok(());
+            }
+        }
+    }
+
+    /// Write asset data with the names that are currently in the name map
+    fn write_data_once<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
         uexp_cursor: Option<&mut W>,
-- 
2.43.0


From 5bb8d4a1d1dc8e4c9e1a09d4ab8687653559c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:37 +0000
Subject: [PATCH 052/116] fix: count the line number of assert expressions with
 its size in the bytecode

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 1dda42e..594a39c 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From 6788102a32eeb62ca08c3ebe34b0b230e655bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:37 +0000
Subject: [PATCH 053/116] fix: write the number of entries of map expressions

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 594a39c..d889c94 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2533,7 +2533,8 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        // this is the number of key-value pairs
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2952,7 +2953,8 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        // this is the number of key-value pairs
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From 841df13398d312348203b4f5196c7bb12ba8376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 054/116] fix: give unversioned assets their
 FAnimPhysObjectVersion

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..3ad6d97 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,6 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
@@ -73,6 +72,7 @@ lazy_static! {
         ( (0xaafe32bd, 0x53954c14, 0xb66a5e25, 0x1032d1dd).into(), (String::from("FProceduralFoliageCustomVersion"), None) ),
         ( (0xab965196, 0x45d808fc, 0xb7d7228d, 0x78ad569e).into(), (String::from("FLiveLinkCustomVersion"), None) ),
 
+        ( FAnimPhysObjectVersion::GUID,                             (String::from(FAnimPhysObjectVersion::FRIENDLY_NAME), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( FCoreObjectVersion::GUID,                                 (String::from(FCoreObjectVersion::FRIENDLY_NAME), Some(FCoreObjectVersion::VERSION_MAPPINGS)) ),
         ( FEditorObjectVersion::GUID,                               (String::from(FEditorObjectVersion::FRIENDLY_NAME), Some(FEditorObjectVersion::VERSION_MAPPINGS)) ),
         ( FFrameworkObjectVersion::GUID,                            (String::from(FFrameworkObjectVersion::FRIENDLY_NAME), Some(FFrameworkObjectVersion::VERSION_MAPPINGS)) ),
-- 
2.43.0


From f14f1594dea046171f942cef42aa84d846dc39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 055/116] fix: consider every engine version that shares an
 object version

---
 .../unreal_asset_base/src/engine_version.rs       | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9b311f2..1751919 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -241,18 +241,17 @@ pub fn get_possible_versions(
     object_version_ue5: ObjectVersionUE5,
 ) -> Vec<EngineVersion> {
     let mut possible_versions = Vec::new();
-    if let Some(ue5_version) = OBJECT_VERSION_TO_ENGINE_VERSION_UE5
-        .iter()
-        .find(|(version, _)| *version == object_version_ue5)
-        .map(|(_, engine_version)| *engine_version)
-    {
-        possible_versions.push(ue5_version);
-    }
+    possible_versions.extend(
+        OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+            .iter()
+            .filter(|(version, _)| *version == object_version_ue5)
+            .map(|(_, engine_version)| *engine_version),
+    );
 
     possible_versions.extend(
         OBJECT_VERSION_TO_ENGINE_VERSION
             .iter()
-            .find(|(version, _)| *version == object_version)
+            .filter(|(version, _)| *version == object_version)
             .map(|(_, engine_version)| *engine_version),
     );
 
-- 
2.43.0


From 08b43d1577de97eb841cc7c7dcc6b45022e033cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 056/116] fix: refuse property exports with an unknown
 replication condition

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..a52c9cc 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -298,7 +298,7 @@ impl UGenericProperty {
             match asset.get_custom_version::<FReleaseObjectVersion>().version
                 >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32
             {
-                true => asset.read_u8()?.try_into().ok(),
+                true => Some(asset.read_u8()?.try_into()?),
                 false => None,
             };
 
-- 
2.43.0


From 4beee66eac99de9d68f45e42ec288fbdf87a4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 057/116] fix: keep exports that have an object guid as raw
 exports

---
 unreal_asset/unreal_asset_exports/src/data_table_export.rs   | 4 +++-
 unreal_asset/unreal_asset_exports/src/enum_export.rs         | 4 +++-
 unreal_asset/unreal_asset_exports/src/level_export.rs        | 4 +++-
 unreal_asset/unreal_asset_exports/src/property_export.rs     | 4 +++-
 unreal_asset/unreal_asset_exports/src/string_table_export.rs | 4 +++-
 unreal_asset/unreal_asset_exports/src/struct_export.rs       | 4 +++-
 unreal_asset/unreal_asset_exports/src/world_export.rs        | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index e07f51f..6eec923 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -59,7 +59,9 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
             }
         }
 
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
         let num_entries = asset.read_i32::<LE>()?;
         let mut data = Vec::new();
 
diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 1d24756..c306161 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -148,7 +148,9 @@ impl<Index: PackageIndexTrait> EnumExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
 
         let value = UEnum::new(asset)?;
         Ok(EnumExport {
diff --git a/unreal_asset/unreal_asset_exports/src/level_export.rs b/unreal_asset/unreal_asset_exports/src/level_export.rs
index a450329..6713f64 100644
--- a/unreal_asset/unreal_asset_exports/src/level_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/level_export.rs
@@ -68,7 +68,9 @@ impl<Index: PackageIndexTrait> LevelExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(unk, asset)?;
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
 
         Ok(LevelExport {
             normal_export,
diff --git a/unreal_asset/unreal_asset_exports/src/property_export.rs b/unreal_asset/unreal_asset_exports/src/property_export.rs
index 36a18b9..b07b4cd 100644
--- a/unreal_asset/unreal_asset_exports/src/property_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/property_export.rs
@@ -34,7 +34,9 @@ impl<Index: PackageIndexTrait> PropertyExport<Index> {
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
 
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
 
         let export_class_type = asset
             .get_export_class_type(normal_export.base_export.class_index)
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 8bb2bcd..fded3e6 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -33,7 +33,9 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
 
         let namespace = asset.read_fstring()?;
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 3243b66..a7e6f02 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -51,7 +51,9 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
diff --git a/unreal_asset/unreal_asset_exports/src/world_export.rs b/unreal_asset/unreal_asset_exports/src/world_export.rs
index 6f0dccc..b28ec7b 100644
--- a/unreal_asset/unreal_asset_exports/src/world_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/world_export.rs
@@ -39,7 +39,9 @@ impl<Index: PackageIndexTrait> WorldExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        if asset.read_i32::<LE>()? != 0 {
+            return Err(Error::unimplemented("Object guid".to_string()));
+        }
         Ok(WorldExport {
             normal_export,
             persistent_level: PackageIndex::new(asset.read_i32::<LE>()?),
-- 
2.43.0


From c39bc5144326dd11720a0d2367c204aa3a1fcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 058/116] fix: do not overflow on a negative number of
 interfaces

---
 unreal_asset/unreal_asset_exports/src/class_export.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index 2a4cb5b..2bce5cc 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -101,7 +101,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
             < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
         {
             interfaces_start = Some(asset.position());
-            let num_interfaces = asset.read_i32::<LE>()?;
+            let num_interfaces = u32::try_from(asset.read_i32::<LE>()?)
+                .map_err(|_| Error::invalid_file("Negative interface count".to_string()))?;
             asset.seek(SeekFrom::Start(
                 interfaces_start.unwrap()
                     + size_of::<i32>() as u64
-- 
2.43.0


From b813fa814c9da014b7a345667a998ef41234fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:17 +0000
Subject: [PATCH 059/116] fix: refuse arrays that claim more elements than the
 file has bytes

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 8b72c6e..5c4d147 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -82,6 +82,11 @@ impl ArrayProperty {
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
+        if num_entries as i64 > length && num_entries as i64 > asset.data_length()? as i64 {
+            return Err(Error::invalid_file(format!(
+                "Invalid array length {num_entries}"
+            )));
+        }
         let mut entries = Vec::new();
         let mut name = name;
 
-- 
2.43.0


From 0d03c70901c99313c8eac4b5cc1f5df6670109e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:02 +0000
Subject: [PATCH 060/116] fix: refuse maps that claim more entries than the
 file has bytes

---
 .../unreal_asset_properties/src/map_property.rs     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 926daf7..ba9c613 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -116,6 +116,17 @@ impl MapProperty {
         }
     }
 
+    /// Check that the file can hold this many entries
+    fn check_length<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+        length: i32,
+    ) -> Result<(), Error> {
+        if length > 0 && length as u64 > asset.data_length()? {
+            return Err(Error::invalid_file(format!("Invalid map length {length}")));
+        }
+        Ok(())
+    }
+
     /// Read a `MapProperty` from an asset
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -155,6 +166,7 @@ impl MapProperty {
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
+        Self::check_length(asset, num_keys_to_remove)?;
         for _ in 0..num_keys_to_remove {
             let key = MapProperty::map_type_to_class(
                 asset,
@@ -171,6 +183,7 @@ impl MapProperty {
         let num_entries = asset.read_i32::<LE>()?;
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
+        Self::check_length(asset, num_entries)?;
         for _ in 0..num_entries {
             let key = MapProperty::map_type_to_class(
                 asset,
-- 
2.43.0


From 0e6ddc85f58bce78869615af6d5eafac70a966d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:11 +0000
Subject: [PATCH 061/116] fix: do not overflow the property indices of
 unversioned headers

---
 .../src/unversioned/header.rs                 | 24 +++++++++----------
 .../unreal_asset_properties/src/lib.rs        | 10 ++++----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..1fdaecc 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -16,7 +16,7 @@ pub struct UnversionedHeaderFragment {
     /// Number of subsequent property values stured
     pub value_num: u8,
     /// First element index of this fragment
-    pub first_num: u8,
+    pub first_num: usize,
     /// Is this the last header fragment?
     pub is_last: bool,
     /// Has zeros
@@ -47,8 +47,8 @@ impl UnversionedHeaderFragment {
     const IS_LAST_MASK: u16 = 0x0100u16;
 
     /// Get last element index of this fragment
-    pub fn get_last_num(&self) -> u8 {
-        self.first_num + self.value_num - 1
+    pub fn get_last_num(&self) -> usize {
+        (self.first_num + self.value_num as usize).saturating_sub(1)
     }
 
     /// Read an `UnversionedHeaderFragment` from an asset
@@ -105,7 +105,7 @@ impl UnversionedHeader {
     /// Loads zero mask data from an asset
     fn load_zero_mask_data<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
-        num_bits: u16,
+        num_bits: usize,
     ) -> Result<BitVec<u8, Lsb0>, Error> {
         if num_bits <= 8 {
             let mut data = [0u8; 1];
@@ -117,7 +117,7 @@ impl UnversionedHeader {
             Ok(BitVec::from_vec(data.to_vec()))
         } else {
             let num_bytes = ((num_bits + 31) / 32) * 4;
-            let mut data = Vec::with_capacity(num_bytes as usize);
+            let mut data = Vec::with_capacity(num_bytes);
             for _ in 0..num_bytes {
                 data.push(asset.read_u8()?);
             }
@@ -136,19 +136,19 @@ impl UnversionedHeader {
         let mut fragments = Vec::new();
 
         let mut first_num = 0;
-        let mut zero_mask_num = 0u16;
-        let mut unmasked_num = 0u16;
+        let mut zero_mask_num = 0usize;
+        let mut unmasked_num = 0usize;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num + fragment.skip_num as usize;
+            first_num = fragment.first_num + fragment.value_num as usize;
 
             fragments.push(fragment);
 
             match fragment.has_zeros {
-                true => zero_mask_num += fragment.value_num as u16,
-                false => unmasked_num += fragment.value_num as u16,
+                true => zero_mask_num += fragment.value_num as usize,
+                false => unmasked_num += fragment.value_num as usize,
             };
 
             if fragment.is_last {
@@ -169,7 +169,7 @@ impl UnversionedHeader {
             }
         };
 
-        let unversioned_property_index = fragments[0].first_num as usize;
+        let unversioned_property_index = fragments[0].first_num;
         Ok(Some(UnversionedHeader {
             fragments,
             zero_mask,
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 369b203..02d1000 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -540,13 +540,13 @@ impl Property {
 
             loop {
                 let current_fragment = header.fragments[header.current_fragment_index];
-                if header.unversioned_property_index > current_fragment.get_last_num() as usize {
+                if header.unversioned_property_index > current_fragment.get_last_num() {
                     break;
                 }
 
                 header.current_fragment_index += 1;
                 header.unversioned_property_index =
-                    header.fragments[header.current_fragment_index].first_num as usize;
+                    header.fragments[header.current_fragment_index].first_num;
             }
 
             let mut practicing_unversioned_property_index = header.unversioned_property_index;
@@ -1573,7 +1573,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
             let fragment = UnversionedHeaderFragment {
                 skip_num: skip_num as u8,
                 value_num: value_num as u8,
-                first_num: start_index as u8,
+                first_num: start_index as usize,
                 is_last: false,
                 has_zeros,
             };
@@ -1600,7 +1600,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
 
     for fragment in fragments.iter().filter(|e| e.has_zeros) {
         for i in 0..fragment.value_num {
-            let is_zero = zero_properties.contains(&((fragment.first_num + i) as u32));
+            let is_zero = zero_properties.contains(&(fragment.first_num as u32 + i as u32));
             if !is_zero {
                 has_non_zero_values = true;
             }
@@ -1609,7 +1609,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
     }
 
     let unversioned_property_index =
-        fragments.first().map(|e| e.first_num).unwrap_or_default() as usize;
+        fragments.first().map(|e| e.first_num).unwrap_or_default();
 
     let header = UnversionedHeader {
         fragments,
-- 
2.43.0


From f5598f67dda675da309ae266b86b37842e4abf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:35 +0000
Subject: [PATCH 062/116] fix: refuse invalid dependency requirements in mod
 metadata instead of panicking

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From 99460b84a88fa19b09fc9e3cf2345bfb7a489b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:35 +0000
Subject: [PATCH 063/116] fix: compare and hash mod metadata by the content of
 its integrator data

---
 unreal_mod_metadata/src/lib.rs |  3 ++-
 unreal_mod_metadata/src/v2.rs  | 35 +++++++++++++++-------------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..8e36469 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -18,7 +18,8 @@ macro_rules! hash_value {
             Value::Number(n) => n.hash($state),
             Value::Bool(b) => b.hash($state),
             Value::Null => (),
-            _ => unreachable!(),
+            Value::Array(a) => a.len().hash($state),
+            Value::Object(o) => o.len().hash($state),
         }
     };
 }
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..2802e66 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -96,16 +96,25 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         self.dependencies.len().hash(state);
+        // the iteration order of a map is arbitrary, so entries are combined commutatively
+        let mut dependencies_hash = 0u64;
         for (element_name, element) in &self.dependencies {
-            element_name.hash(state);
-            element.hash(state);
+            let mut hasher = DefaultHasher::new();
+            element_name.hash(&mut hasher);
+            element.hash(&mut hasher);
+            dependencies_hash = dependencies_hash.wrapping_add(hasher.finish());
         }
+        dependencies_hash.hash(state);
 
         self.integrator.len().hash(state);
+        let mut integrator_hash = 0u64;
         for (element_name, element) in &self.integrator {
-            element_name.hash(state);
-            hash_value!(element, state);
+            let mut hasher = DefaultHasher::new();
+            element_name.hash(&mut hasher);
+            hash_value!(element, &mut hasher);
+            integrator_hash = integrator_hash.wrapping_add(hasher.finish());
         }
+        integrator_hash.hash(state);
 
         self.cpp_loader_dlls.hash(state);
     }
@@ -113,7 +122,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +134,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From a9c21e30f324b0c4055c54e87fabf35a032fc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 064/116] fix: give the description of listed mods its own
 column instead of a tenth duplicate

---
 unreal_mod_integrator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index f2668ac..24b362f 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -230,7 +230,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
                 name: columns[2].clone(),
                 ancestry: Ancestry::default(),
                 property_guid: None,
-                duplication_index: 9,
+                duplication_index: 0,
                 value: Some(mod_data.description.clone().unwrap_or_default()),
             }
             .into(),
-- 
2.43.0


From e0351c468568d966ecfed51862691b38e8446f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 065/116] fix: list a mod that comes with the integrator once
 when it is also requested

---
 unreal_mod_integrator/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 24b362f..fc373bb 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -379,9 +379,15 @@ pub fn integrate_mods<
     );
 
     let baked_mods = integrator_config.get_baked_mods();
-    let core_mods = baked_mods.iter().filter(|e| e.is_core());
+    // baked mods that were passed in are already handled
+    let remaining_baked_mods = baked_mods.iter().filter(|e| {
+        !mods.iter().any(|provided_mod| {
+            matches!(provided_mod, IntegratorMod::Baked(baked_mod) if baked_mod.mod_id == e.get_mod_id())
+        })
+    });
+    let core_mods = remaining_baked_mods.clone().filter(|e| e.is_core());
 
-    let enabled_baked_mods = baked_mods.iter().filter(|e| !e.is_core()).filter(|e| {
+    let enabled_baked_mods = remaining_baked_mods.filter(|e| !e.is_core()).filter(|e| {
         mods.iter()
             .any(|provided_mod| provided_mod.get_mod_id() == e.get_mod_id())
     });
-- 
2.43.0


From ea39968ab3651576b7a85906884f3b1ce784a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 066/116] fix: report mod files that cannot be opened or
 written instead of leaving the mod out

---
 unreal_mod_integrator/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index fc373bb..0952c2c 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -407,11 +407,11 @@ pub fn integrate_mods<
         .chain(core_mods)
         .chain(enabled_baked_mods)
         .filter_map(|e| match e {
-            IntegratorMod::File(file_mod) => File::open(&file_mod.path).ok(),
-            IntegratorMod::Baked(baked_mod) => baked_mod.write(paks_path).ok(),
+            IntegratorMod::File(file_mod) => Some(File::open(&file_mod.path).map_err(Error::from)),
+            IntegratorMod::Baked(baked_mod) => Some(baked_mod.write(paks_path)),
             _ => None,
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>, Error>>()?;
 
     let mut mod_paks = Vec::new();
     let mut read_mods = Vec::new();
-- 
2.43.0


From 448039f07ccab617afd42a0298076c8949e4e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 067/116] fix: give mods with the same id different rows in the
 list of mods

---
 unreal_mod_integrator/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index 0952c2c..a3f8045 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -9,6 +9,7 @@ use serde_json::Value;
 
 use unreal_asset::engine_version::EngineVersion;
 use unreal_asset::properties::int_property::BytePropertyValue;
+use unreal_asset::reader::ArchiveTrait;
 use unreal_asset::types::FName;
 use unreal_asset::unversioned::Ancestry;
 use unreal_asset::{
@@ -280,7 +281,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
         let duplication_index = duplication_indices
             .entry(mod_data.mod_id.clone())
             .or_insert_with(|| 0);
-        let name = asset.add_fname(&mod_data.mod_id);
+        let name = asset.add_fname_with_number(&mod_data.mod_id, *duplication_index);
         new_table.push(StructProperty {
             name,
             ancestry: Ancestry::default(),
-- 
2.43.0


From 3e19908b438ebe44f208931e43cb877d2d014ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 068/116] fix: look up the classes of an actor blueprint's
 objects in that blueprint, not in the map

---
 .../src/handlers/ue4_23/persistent_actors.rs                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 357daf8..1c52cec 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -160,7 +160,7 @@ pub fn handle_persistent_actors(
                 let export = &actor_asset.asset_data.exports[i];
                 if let Some(normal_export) = export.get_normal_export() {
                     if normal_export.base_export.class_index.is_import() {
-                        let import = asset
+                        let import = actor_asset
                             .get_import(normal_export.base_export.class_index)
                             .ok_or_else(|| io::Error::new(ErrorKind::Other, "Import not found"))?;
                         if import.object_name == "SimpleConstructionScript" {
@@ -208,7 +208,7 @@ pub fn handle_persistent_actors(
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-                            let import = asset
+                            let import = actor_asset
                                 .get_import(known_category.base_export.class_index)
                                 .ok_or_else(|| {
                                 io::Error::new(ErrorKind::Other, "Import not found")
-- 
2.43.0


From 036acc7dc20927ecd9f75d25d9b3aafb1f58f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 069/116] fix: report construction script nodes that do not
 exist instead of panicking

---
 .../src/handlers/ue4_23/persistent_actors.rs              | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 1c52cec..1ff1e89 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -202,9 +202,11 @@ pub fn handle_persistent_actors(
 
                 let mut known_parents = HashMap::new();
                 for known_node_category in known_node_categories {
-                    let known_category: &NormalExport<_> = actor_asset.asset_data.exports
-                        [known_node_category as usize - 1]
-                        .get_normal_export()
+                    let known_category: &NormalExport<_> = actor_asset
+                        .asset_data
+                        .exports
+                        .get(known_node_category as usize - 1)
+                        .and_then(|e| e.get_normal_export())
                         .ok_or_else(|| io::Error::new(ErrorKind::Other, "Invalid export"))?;
                     let is_scs_node = match known_category.base_export.class_index.is_import() {
                         true => {
-- 
2.43.0


From d4cd9ac375d17e402dbbc8f372f5956841813843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 070/116] fix: copy component classes of persistent actors into
 the map with its own names and packages

---
 .../src/handlers/ue4_23/persistent_actors.rs  | 55 +++++++++++--------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
index 1ff1e89..e63d6e1 100644
--- a/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
+++ b/unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs
@@ -1,9 +1,10 @@
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{self, BufReader, Cursor, ErrorKind};
+use std::io::{self, BufReader, Cursor, ErrorKind, Read, Seek};
 use std::path::Path;
 
 use unreal_asset::engine_version::EngineVersion;
+use unreal_asset::reader::ArchiveTrait;
 use unreal_asset::unversioned::Ancestry;
 use unreal_asset::Guid;
 use unreal_asset::{
@@ -31,6 +32,32 @@ struct ScsNode {
     original_category: PackageIndex,
 }
 
+/// Finds an import of another asset in this asset, or adds it.
+fn copy_import<C: Read + Seek>(
+    asset: &mut Asset<C>,
+    import: &Import,
+    outer_index: PackageIndex,
+) -> PackageIndex {
+    let import = Import {
+        class_package: import.class_package.get_content(|e| asset.add_fname(e)),
+        class_name: import.class_name.get_content(|e| asset.add_fname(e)),
+        outer_index,
+        object_name: import
+            .object_name
+            .get_content(|e| asset.add_fname_with_number(e, import.object_name.get_number())),
+        optional: import.optional,
+    };
+    match asset.find_import(
+        &import.class_package,
+        &import.class_name,
+        import.outer_index,
+        &import.object_name,
+    ) {
+        Some(e) => PackageIndex::new(e),
+        None => asset.add_import(import),
+    }
+}
+
 #[allow(clippy::ptr_arg)]
 pub fn handle_persistent_actors(
     game_name: &'static str,
@@ -293,29 +320,9 @@ pub fn handle_persistent_actors(
 
                     if let (Some(first_import), Some(second_import)) = (first_import, second_import)
                     {
-                        if asset
-                            .find_import(
-                                &second_import.class_package,
-                                &second_import.class_name,
-                                second_import.outer_index,
-                                &second_import.object_name,
-                            )
-                            .is_none()
-                        {
-                            asset.add_import(second_import);
-                        }
-
-                        let type_link = match asset.find_import(
-                            &first_import.class_package,
-                            &first_import.class_name,
-                            first_import.outer_index,
-                            &first_import.object_name,
-                        ) {
-                            Some(e) => PackageIndex::new(e),
-                            None => asset.add_import(first_import),
-                        };
-
-                        new_scs.type_link = type_link;
+                        let package =
+                            copy_import(&mut asset, &second_import, PackageIndex::new(0));
+                        new_scs.type_link = copy_import(&mut asset, &first_import, package);
                     }
                     created_components.push(new_scs);
                 }
-- 
2.43.0


From 7adfc70a2a3f9ad675ecbddd2dc8b7fb0eba544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 071/116] fix: report unresolved dependencies with the mods
 that need them instead of panicking

---
 .../src/mod_processing/dependencies.rs         | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..8d62c49 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -1,6 +1,11 @@
 use std::collections::HashMap;
 
-use petgraph::{graph::NodeIndex, prelude::DiGraph, visit::IntoNodeReferences, Direction};
+use petgraph::{
+    graph::NodeIndex,
+    prelude::DiGraph,
+    visit::{EdgeRef, IntoNodeReferences},
+    Direction,
+};
 use semver::{Version, VersionReq};
 use unreal_mod_metadata::{Dependency, DownloadInfo};
 
@@ -150,18 +155,13 @@ impl DependencyGraph {
                     let warning = ModLoaderWarning::unresolved_dependency(
                         weight.mod_id.clone(),
                         self.graph
-                            .neighbors_directed(node, Direction::Incoming)
+                            .edges_directed(node, Direction::Incoming)
                             .map(|e| {
                                 (
-                                    self.graph.node_weight(e).unwrap().mod_id.clone(),
-                                    self.graph
-                                        .edges_connecting(node, e)
-                                        .next()
-                                        .unwrap()
-                                        .weight(),
+                                    self.graph.node_weight(e.source()).unwrap().mod_id.clone(),
+                                    e.weight().to_string(),
                                 )
                             })
-                            .map(|(mod_id, version_req)| (mod_id, version_req.to_string()))
                             .collect::<Vec<_>>(),
                     );
                     warnings.push(warning);
-- 
2.43.0


From fdb49698a71e94dce4c2b531ee279df1f0414df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 072/116] fix: name the requirement of each dependent, not that
 of an edge in the other direction

---
 .../src/mod_processing/dependencies.rs              | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 8d62c49..4c3e329 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -196,18 +196,11 @@ impl DependencyGraph {
         if let Some((node, _)) = node {
             return self
                 .graph
-                .neighbors_directed(node, Direction::Incoming)
+                .edges_directed(node, Direction::Incoming)
                 .map(|e| {
                     (
-                        self.graph.node_weight(e).unwrap().mod_id.clone(),
-                        self.graph.find_edge_undirected(node, e),
-                    )
-                })
-                .filter(|(_, edge)| edge.is_some())
-                .map(|(mod_id, edge)| {
-                    (
-                        mod_id,
-                        self.graph.edge_weight(edge.unwrap().0).unwrap().to_string(),
+                        self.graph.node_weight(e.source()).unwrap().mod_id.clone(),
+                        e.weight().to_string(),
                     )
                 })
                 .collect::<Vec<_>>();
-- 
2.43.0


From 37250171578fbcc9eb3677d588d17cdd864e77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 073/116] fix: combine any number of version requirements
 without parsing them again

---
 .../src/mod_processing/dependencies.rs          | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 4c3e329..96751ab 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -47,21 +47,8 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
-- 
2.43.0


From a4f1531f4e9d9956fcf2e7f3a3f0d1fb69c13cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 074/116] fix: choose the newest version that satisfies all
 dependents

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 96751ab..7d35f84 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -132,7 +132,11 @@ impl DependencyGraph {
             let requirement = intersect_requirements(requirements);
 
             let weight = self.graph.node_weight(node).unwrap();
-            let matching_version = weight.versions.iter().find(|e| requirement.matches(e));
+            let matching_version = weight
+                .versions
+                .iter()
+                .filter(|e| requirement.matches(e))
+                .max();
 
             match matching_version {
                 Some(matching_version) => {
-- 
2.43.0


From 8b7276cdfcd9c4c0f105402932c9fc1e5b261759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 075/116] fix: do not take the versions of a dependent for
 versions of its dependencies

---
 unreal_mod_manager/src/background_work.rs     | 37 ++++++++++++++++++-
 .../src/mod_processing/dependencies.rs        |  2 +-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index bbc3fd5..5631ea4 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -18,7 +18,8 @@ use semver::Version;
 use sha2::{Digest, Sha256};
 
 use unreal_mod_integrator::{
-    integrate_mods, FileMod, IntegratorConfig, IntegratorModInfo, INTEGRATOR_PAK_FILE_NAME,
+    integrate_mods, FileMod, IntegratorConfig, IntegratorMod, IntegratorModInfo,
+    INTEGRATOR_PAK_FILE_NAME,
 };
 use unreal_mod_metadata::Metadata;
 use unreal_pak::PakReader;
@@ -92,6 +93,25 @@ fn download_mod(
     Ok((metadata, file_path))
 }
 
+/// Metadata of the mods that come with the integrator.
+fn baked_mods_metadata<E: std::error::Error>(
+    baked_mods: &[IntegratorMod<E>],
+) -> HashMap<String, Metadata> {
+    baked_mods
+        .iter()
+        .filter_map(|e| match e {
+            IntegratorMod::Baked(baked_mod) => {
+                let mut pak = PakReader::new(io::Cursor::new(baked_mod.data));
+                pak.load_index().ok()?;
+                let metadata = pak.read_entry(&String::from("metadata.json")).ok()?;
+                let metadata = unreal_mod_metadata::from_slice(&metadata).ok()?;
+                Some((baked_mod.mod_id.clone(), metadata))
+            }
+            _ => None,
+        })
+        .collect()
+}
+
 fn download_mods(mods_path: &Path, files_to_download: &[GameModVersion]) -> Vec<ModLoaderWarning> {
     let mut warnings = Vec::new();
 
@@ -408,9 +428,24 @@ where
 
                     let mut next_round = Vec::new();
 
+                    let baked_mods =
+                        baked_mods_metadata(&config.get_integrator_config().get_baked_mods());
+
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            // these do not need to be downloaded
+                            if let Some(metadata) = baked_mods.get(mod_id) {
+                                if let Ok(version) = Version::parse(&metadata.mod_version) {
+                                    next_round.push(ModWithDependencies::new(
+                                        mod_id.clone(),
+                                        Vec::from([version]),
+                                        metadata.dependencies.clone(),
+                                    ));
+                                }
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 7d35f84..425809b 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -89,7 +89,7 @@ impl DependencyGraph {
             for (dependency_mod_id, dependency) in &game_mod.dependencies {
                 let dependency_node = self.get_or_add_mod(GraphMod {
                     mod_id: dependency_mod_id.clone(),
-                    versions: game_mod.versions.clone(),
+                    versions: Vec::new(),
                     downloads: match dependency.download.as_ref() {
                         Some(e) => Vec::from([e.clone()]),
                         None => Vec::new(),
-- 
2.43.0


From 5a896b53a3a05b3d1e5a838b3b1a4d5a8576c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 076/116] fix: end dependency resolution when mods depend on
 each other

---
 unreal_mod_manager/src/background_work.rs | 29 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 5631ea4..d120edc 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::env;
 use std::fs::{self, File};
 use std::io::{self, Error};
@@ -427,6 +427,7 @@ where
                     let mut dependencies = graph.add_mods(&first_round);
 
                     let mut next_round = Vec::new();
+                    let mut resolved = HashSet::new();
 
                     let baked_mods =
                         baked_mods_metadata(&config.get_integrator_config().get_baked_mods());
@@ -434,14 +435,21 @@ where
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            // installed mods keep their version
+                            if first_round.iter().any(|e| e.mod_id == *mod_id) {
+                                continue;
+                            }
+
                             // these do not need to be downloaded
                             if let Some(metadata) = baked_mods.get(mod_id) {
                                 if let Ok(version) = Version::parse(&metadata.mod_version) {
-                                    next_round.push(ModWithDependencies::new(
-                                        mod_id.clone(),
-                                        Vec::from([version]),
-                                        metadata.dependencies.clone(),
-                                    ));
+                                    if resolved.insert((mod_id.clone(), version.clone())) {
+                                        next_round.push(ModWithDependencies::new(
+                                            mod_id.clone(),
+                                            Vec::from([version]),
+                                            metadata.dependencies.clone(),
+                                        ));
+                                    }
                                 }
                                 continue;
                             }
@@ -463,9 +471,14 @@ where
 
                             let matching_version = entry
                                 .iter()
-                                .find(|(version, _)| version_req.matches(version));
+                                .filter(|(version, _)| version_req.matches(version))
+                                .max_by_key(|(version, _)| *version);
+
+                            if let Some((version, index_version)) = matching_version {
+                                if !resolved.insert((mod_id.clone(), version.clone())) {
+                                    continue;
+                                }
 
-                            if let Some((_, index_version)) = matching_version {
                                 let file = download_mod(&mods_path, index_version);
 
                                 if let Ok((metadata, _)) = file {
-- 
2.43.0


From 7411e11f41ce75fc12eab7ea031dc238fc4cf567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 077/116] fix: accept only dots between the numbers and before
 the extension of mod file names

---
 unreal_mod_manager/src/mod_processing/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index a63683b..fb59c32 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -14,7 +14,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+.\d+.\d+)_P.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+\.\d+\.\d+)_P\.pak$").unwrap();
 }
 
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
-- 
2.43.0


From 7dc37835fe232ea2e349314af06f576d2c1396af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 078/116] fix: report mod files with invalid versions instead
 of panicking

---
 unreal_mod_manager/src/mod_processing/pakfile_reading.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..3b6f757 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,10 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            if Version::parse(version).is_err() {
+                return Err(ModLoaderWarning::invalid_version(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
-- 
2.43.0


From a030998d9745d5493529eae4a8aa6e968b78df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 079/116] fix: do not panic on integration while there is no
 folder for installed mods

---
 unreal_mod_manager/src/background_work.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index d120edc..06f1613 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -309,7 +309,10 @@ where
 
                 let mut data_guard = background_thread_data.data.lock();
 
-                let paks_path = data_guard.paks_path.as_ref().unwrap().clone();
+                let paks_path = match data_guard.paks_path {
+                    Some(ref paks_path) => paks_path.clone(),
+                    None => continue,
+                };
                 let install_path = match data_guard.game_install_path {
                     Some(ref install_path) => install_path.clone(),
                     None => continue,
-- 
2.43.0


From 1a61ee95c344456cda570fcc704106a9764c2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 080/116] fix: follow the latest version when a newer one is
 added

---
 unreal_mod_manager/src/mod_processing/version_handling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index d3b37c4..46287c6 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -11,7 +11,7 @@ use crate::ModLoaderAppData;
 pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
     for (_, game_mod) in data.game_mods.iter_mut() {
         // if using latest indirect, find version
-        if let SelectedVersion::LatestIndirect(None) = game_mod.selected_version {
+        if let SelectedVersion::LatestIndirect(_) = game_mod.selected_version {
             let mut versions = game_mod.versions.keys().collect::<Vec<&Version>>();
             versions.sort();
             game_mod.selected_version =
-- 
2.43.0


From 2c75bc95fc4604336e3825d07eb34d5c18949418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 081/116] fix: refuse invalid versions in index files instead
 of panicking

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..a459a2f 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
-- 
2.43.0


From 16cc639d0c45fd635185d93ab4287d56000202ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 082/116] fix: report index files that cannot be received
 instead of panicking

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index a459a2f..fe736a5 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -127,11 +127,13 @@ pub(crate) fn download_index_file(
         ));
     }
 
-    let index_file =
-        serde_json::from_str::<IndexFile>(response.text().unwrap().as_str()).map_err(|err| {
-            warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
-            ModLoaderWarning::invalid_index_file(mod_id.clone())
-        })?;
+    let response = response
+        .text()
+        .map_err(|err| ModLoaderWarning::index_file_download_failed(mod_id.clone(), err))?;
+    let index_file = serde_json::from_str::<IndexFile>(response.as_str()).map_err(|err| {
+        warn!("Failed to parse index file for {}: {}", mod_id.clone(), err);
+        ModLoaderWarning::invalid_index_file(mod_id.clone())
+    })?;
 
     match index_file.mods.get(&mod_id) {
         Some(index_file_mod) => Ok((mod_id, index_file_mod.clone())),
-- 
2.43.0


From ac07cbb2ef885ebca3fa0a1edac2ee7999ba5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 083/116] fix: select the latest version of an index file only
 if it can be had

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index fe736a5..aba6593 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -225,6 +225,16 @@ pub(crate) fn insert_index_file_data(
             }
         }
 
+        if !game_mod.versions.contains_key(&index_file.latest_version) {
+            warn!(
+                "Latest version {} in index file for mod {:?} does not exist",
+                index_file.latest_version, mod_id
+            );
+            warnings.push(ModLoaderWarning::invalid_index_file(mod_id.to_owned()));
+
+            continue;
+        }
+
         match game_mod.selected_version {
             SelectedVersion::Latest(_) => {
                 game_mod.selected_version =
-- 
2.43.0


From 0863ffdef9a6d91ce9bee4ca2f0ca54616ca9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 084/116] fix: do not panic when the file of a selected version
 has been deleted

---
 unreal_mod_manager/src/mod_processing/version_handling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index 46287c6..aa0e5fe 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -57,7 +57,7 @@ pub(crate) fn set_mod_data_from_version(data: &mut ModLoaderAppData, filter: &[S
                 .as_ref()
                 .unwrap()
                 .join(version_data.file_name.clone());
-            game_mod.size = fs::metadata(path).unwrap().len();
+            game_mod.size = fs::metadata(path).map(|e| e.len()).unwrap_or_default();
         }
     }
 }
-- 
2.43.0


From 46d3a5dc8dd94db44158634b3248e5518e9bb3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 085/116] fix: refuse index file entries whose file names are
 those of other mods or versions

---
 unreal_mod_manager/src/mod_processing/index_file.rs |  2 +-
 unreal_mod_manager/src/mod_processing/verify.rs     | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index aba6593..fdda838 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -197,7 +197,7 @@ pub(crate) fn insert_index_file_data(
         let game_mod = data.game_mods.get_mut(mod_id).unwrap();
 
         for (version, version_info) in index_file.versions.iter() {
-            if !verify::verify_mod_file_name(&version_info.file_name) {
+            if !verify::verify_mod_version_file_name(&version_info.file_name, mod_id, version) {
                 warn!(
                     "Failed to verify filename {:?} from index file for mod {:?}",
                     version_info.file_name, mod_id
diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index fb59c32..1734928 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -1,5 +1,6 @@
 use lazy_static::lazy_static;
 use regex::Regex;
+use semver::Version;
 
 // migth need at some point
 // pub fn verify_mod_id(mod_id: &str) -> bool {
@@ -17,6 +18,15 @@ lazy_static! {
     pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+\.\d+\.\d+)_P\.pak$").unwrap();
 }
 
+/// Verify that a file name is that of a specific version of a mod
+pub fn verify_mod_version_file_name(file_name: &str, mod_id: &str, version: &Version) -> bool {
+    verify_mod_file_name(file_name)
+        && MOD_FILENAME_REGEX
+            .captures(file_name)
+            .map(|e| e[2] == *mod_id && e[3] == version.to_string())
+            .unwrap_or(false)
+}
+
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
     if let Some(matches) = MOD_FILENAME_REGEX.captures(mod_id) {
         if let Some(mod_name) = matches.get(2) {
-- 
2.43.0


From 79655c6ebaeeee0d340778170b2bb7d61dc80b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 086/116] fix: keep installed mod files when an import or
 download of the same name is no mod or incomplete

---
 unreal_mod_manager/src/background_work.rs    | 86 +++++++++++++++-----
 unreal_mod_manager/src/mod_processing/mod.rs |  7 +-
 2 files changed, 71 insertions(+), 22 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 06f1613..5dab45c 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -29,9 +29,11 @@ use crate::error::{ModLoaderError, ModLoaderWarning};
 use crate::game_mod::{self, GameModVersion};
 use crate::mod_config::{load_config, write_config};
 use crate::mod_processing::{
+    check_modfile,
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
     process_modfiles,
+    verify::{verify_mod_file_name, verify_mod_version_file_name},
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -67,28 +69,60 @@ impl BackgroundThreadMessage {
     }
 }
 
+/// Writes a file under a temporary name first, so that an existing file is only
+/// replaced once the new one is complete.
+fn replace_file<T>(
+    path: &Path,
+    write: impl FnOnce(&Path) -> Result<T, ModLoaderWarning>,
+) -> Result<T, ModLoaderWarning> {
+    let mut temp_path = path.as_os_str().to_owned();
+    temp_path.push(".part");
+    let temp_path = PathBuf::from(temp_path);
+
+    let result = write(&temp_path).and_then(|e| {
+        fs::rename(&temp_path, path)?;
+        Ok(e)
+    });
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
 fn download_mod(
     mods_path: &Path,
     mod_version: &IndexFileModVersion,
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
-    // this is safe because the filename has already been validated
+    if !verify_mod_file_name(&mod_version.file_name) {
+        return Err(ModLoaderWarning::invalid_mod_file_name(
+            mod_version.file_name.clone(),
+        ));
+    }
+
     let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
+        .and_then(|e| e.error_for_status())
         .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
     let file_path = mods_path.join(mod_version.file_name.clone());
-    let mut file = fs::File::create(&file_path)?;
-
-    io::copy(&mut response, &mut file)?;
-
-    drop(file);
-    let file = fs::File::open(&file_path)?;
-
-    let mut pak = PakReader::new(&file);
-    pak.load_index()?;
-
-    let metadata = pak.read_entry(&String::from("metadata.json"))?;
-    let metadata = unreal_mod_metadata::from_slice(&metadata)
-        .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
+    let metadata = replace_file(&file_path, |temp_path| {
+        let mut file = fs::File::create(temp_path)?;
+        io::copy(&mut response, &mut file)?;
+        drop(file);
+
+        let file = fs::File::open(temp_path)?;
+        let mut pak = PakReader::new(&file);
+        pak.load_index()?;
+
+        let metadata = pak.read_entry(&String::from("metadata.json"))?;
+        unreal_mod_metadata::from_slice(&metadata)
+            .ok()
+            .filter(|e| {
+                Version::parse(&e.mod_version).is_ok_and(|version| {
+                    verify_mod_version_file_name(&mod_version.file_name, &e.mod_id, &version)
+                })
+            })
+            .ok_or_else(|| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))
+    })?;
 
     Ok((metadata, file_path))
 }
@@ -230,17 +264,27 @@ where
                         let file_path = &file.path;
                         let file_name = file_path.file_name().unwrap();
 
+                        // only mods may replace files in the mods directory
+                        let warnings = check_modfile(file);
+                        if !warnings.is_empty() {
+                            data_guard.warnings.extend(warnings);
+                            return None;
+                        }
+
                         // copy the file to the mods directory
                         let new_file_path = mods_path.join(file_name);
-                        match fs::copy(file_path, &new_file_path) {
+                        let copied = replace_file(&new_file_path, |temp_path| {
+                            fs::copy(file_path, temp_path).map_err(|err| {
+                                ModLoaderWarning::io_error_with_message(
+                                    "Copying file to mods directory".to_owned(),
+                                    err,
+                                )
+                            })
+                        });
+                        match copied {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
-                                data_guard
-                                    .warnings
-                                    .push(ModLoaderWarning::io_error_with_message(
-                                        "Copying file to mods directory".to_owned(),
-                                        err,
-                                    ));
+                                data_guard.warnings.push(err);
                                 None
                             }
                         }
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 355fcdb..f024e1f 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -13,7 +13,12 @@ use pakfile_reading::{insert_mods_from_readdata, read_pak_files};
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-mod verify;
+pub(crate) mod verify;
+
+/// Check that a file is a mod, without deleting or adding it.
+pub(crate) fn check_modfile(mod_file: &FileToProcess) -> Vec<ModLoaderWarning> {
+    read_pak_files(&[FileToProcess::new(mod_file.path.clone(), false)]).1
+}
 
 // TODO this should at somepoint be changed to `-> Result<Vec<ModLoaderWarning>, ModLoaderError>`
 // to properly convey that some things might critically fail.
-- 
2.43.0


From 7f91b356cbd339bd501534f3632ac8ab7bcd7c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:22 +0000
Subject: [PATCH 087/116] fix: stop showing an import as running when it is
 done

---
 unreal_mod_manager/src/background_work.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 5dab45c..0cdeedb 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -299,6 +299,10 @@ where
                     process_modfiles(&files_to_process, &background_thread_data.data, true);
                 debug!("warnings: {:?}", warnings);
                 background_thread_data.data.lock().warnings.extend(warnings);
+
+                background_thread_data
+                    .working
+                    .store(false, Ordering::Release);
             }
             BackgroundThreadMessage::RemoveMod(mod_id) => {
                 let mut data_guard = background_thread_data.data.lock();
-- 
2.43.0


From f95f5a9f69c0481554b4c930173da407ec42e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:44 +0000
Subject: [PATCH 088/116] fix: keep the version that was chosen for a
 dependency selected

---
 unreal_mod_manager/src/background_work.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 0cdeedb..852ea0e 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -584,7 +584,7 @@ where
                                             metadata: Some(metadata),
                                         });
 
-                                        to_enable.push(mod_id.clone());
+                                        to_enable.push((mod_id.clone(), version.clone()));
                                         downloaded_mods.push(FileToProcess::new(mod_path, false));
                                     }
                                     Err(err) => warnings.push(err),
@@ -608,9 +608,17 @@ where
                     warnings.extend(process_warnings);
 
                     let mut data_guard = background_thread_data.data.lock();
-                    for to_enable in to_enable {
-                        if let Some(game_mod) = data_guard.game_mods.get_mut(&to_enable) {
+                    for (mod_id, version) in to_enable {
+                        if let Some(game_mod) = data_guard.game_mods.get_mut(&mod_id) {
                             game_mod.enabled = true;
+
+                            // otherwise the next integration would use another version
+                            if game_mod.selected_version.clone().unwrap() != version
+                                && game_mod.versions.contains_key(&version)
+                            {
+                                game_mod.selected_version =
+                                    game_mod::SelectedVersion::Specific(version);
+                            }
                         }
                     }
 
-- 
2.43.0


From 0fbcb6c5d3c689c43c00c4ef4a663698b35df37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:44 +0000
Subject: [PATCH 089/116] fix: check the trust of mods that integration has
 only just downloaded

---
 unreal_mod_manager/src/background_work.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 852ea0e..18bdc87 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -445,6 +445,22 @@ where
                         false,
                     ));
 
+                    // the metadata of newly downloaded mods is only known now
+                    for mod_version in &mut mods_to_install {
+                        let data_guard = background_thread_data.data.lock();
+                        let processed = data_guard
+                            .game_mods
+                            .get(&mod_version.mod_id)
+                            .and_then(|e| {
+                                e.versions
+                                    .values()
+                                    .find(|e| e.file_name == mod_version.file_name)
+                            });
+                        if let Some(processed) = processed {
+                            *mod_version = processed.clone();
+                        }
+                    }
+
                     // fetch dependencies
                     let mut first_round = Vec::new();
 
-- 
2.43.0


From 945ad42c5fafd01a15a4ef9eadf5b7ce16ada134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:14 +0000
Subject: [PATCH 090/116] fix: select a version that is there while the index
 file names no latest version

---
 unreal_mod_manager/src/background_work.rs            | 12 +-----------
 .../src/mod_processing/version_handling.rs           | 11 ++++++++++-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 18bdc87..de83c91 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -471,19 +471,9 @@ where
                         .iter()
                         .filter(|(_, game_mod)| game_mod.enabled)
                     {
-                        let selected_version = match &enabled_mod.selected_version {
-                            game_mod::SelectedVersion::Latest(version) => version,
-                            game_mod::SelectedVersion::LatestIndirect(_) => {
-                                let mut versions =
-                                    enabled_mod.versions.keys().collect::<Vec<&Version>>();
-                                versions.sort();
-                                *versions.last().unwrap()
-                            }
-                            game_mod::SelectedVersion::Specific(version) => version,
-                        };
                         first_round.push(ModWithDependencies::new(
                             mod_id.clone(),
-                            Vec::from([selected_version.clone()]),
+                            Vec::from([enabled_mod.selected_version.clone().unwrap()]),
                             enabled_mod.dependencies.clone(),
                         ));
                     }
diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index aa0e5fe..ae07e2d 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -12,7 +12,16 @@ pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
     for (_, game_mod) in data.game_mods.iter_mut() {
         // if using latest indirect, find version
         if let SelectedVersion::LatestIndirect(_) = game_mod.selected_version {
-            let mut versions = game_mod.versions.keys().collect::<Vec<&Version>>();
+            // versions that only the index file knows of are not there yet
+            let mut versions = game_mod
+                .versions
+                .iter()
+                .filter(|(_, version)| version.downloaded)
+                .map(|(version, _)| version)
+                .collect::<Vec<&Version>>();
+            if versions.is_empty() {
+                versions.extend(game_mod.versions.keys());
+            }
             versions.sort();
             game_mod.selected_version =
                 SelectedVersion::LatestIndirect(Some((*versions.last().unwrap()).clone()));
-- 
2.43.0


From 2e6a7aea3c61ee56524ce91559a1d29bf031127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:34 +0000
Subject: [PATCH 091/116] fix: do not select versions from the config that are
 not there

---
 unreal_mod_manager/src/mod_config.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..43a07d8 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -86,7 +86,16 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
                 continue;
             }
 
-            game_mod.selected_version = SelectedVersion::Specific(config_version.unwrap());
+            let config_version = config_version.unwrap();
+            if !game_mod.versions.contains_key(&config_version) {
+                warn!(
+                    "Version {} of mod {} referenced in modconfig.json is not available",
+                    config_version, mod_id
+                );
+                continue;
+            }
+
+            game_mod.selected_version = SelectedVersion::Specific(config_version);
         }
     }
 
-- 
2.43.0


From 3c0193ac86313d9363c44533b778b93a5566a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 092/116] fix: accept only ASCII digits as priority of mod file
 names

---
 unreal_mod_manager/src/mod_processing/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index 1734928..acbb3fc 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -15,7 +15,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+\.\d+\.\d+)_P\.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^[0-9]{3})-([a-zA-Z0-9\.]+)-(\d+\.\d+\.\d+)_P\.pak$").unwrap();
 }
 
 /// Verify that a file name is that of a specific version of a mod
-- 
2.43.0


From 3c571378b8c679bb7a5d2207749e7abbc7b1a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 093/116] fix: do not panic when the config file is no text

---
 unreal_mod_manager/src/mod_config.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 43a07d8..95ab5fc 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -52,7 +52,10 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         bail!()
     }
 
-    let config: ModConfig = match serde_json::from_str(&fs::read_to_string(&config_path).unwrap()) {
+    let config: Result<ModConfig, _> = fs::read(&config_path)
+        .map_err(serde_json::Error::io)
+        .and_then(|config| serde_json::from_slice(&config));
+    let config = match config {
         Ok(config) => config,
         Err(err) => {
             error!("{}", err);
-- 
2.43.0


From df1ebd9e0ab6862e4f67851bc0f69274e84088a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 094/116] fix: use another game platform when the one from the
 config is not there

---
 unreal_mod_manager/src/mod_config.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 95ab5fc..2f832a9 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -117,9 +117,12 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         }
     };
 
-    if let Some(ref selected_game_platform) = config.selected_game_platform {
-        let _ = data.set_game_platform(selected_game_platform);
-    } else if data.set_game_platform("Steam").is_err() {
+    let platform_set = config
+        .selected_game_platform
+        .as_ref()
+        .map(|platform| data.set_game_platform(platform).is_ok())
+        .unwrap_or(false);
+    if !platform_set && data.set_game_platform("Steam").is_err() {
         let first_platform = data.install_managers.keys().next().unwrap();
         let _ = data.set_game_platform(first_platform);
     }
-- 
2.43.0


From d0d13f47f5ae1164deb21bfa10f0ef9a78b9acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:05 +0000
Subject: [PATCH 095/116] fix: keep the old config file when a new one cannot
 be written

---
 unreal_mod_manager/src/mod_config.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index 2f832a9..74d8a4a 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -158,7 +158,14 @@ pub(crate) fn write_config(data: &ModLoaderAppData) {
     }
 
     let config_str = serde_json::to_string(&config).unwrap();
-    fs::write(config_path, config_str).unwrap();
-
-    debug!("Wrote config");
+    let temp_path = config_path.with_extension("json.part");
+    let result =
+        fs::write(&temp_path, config_str).and_then(|_| fs::rename(&temp_path, &config_path));
+    match result {
+        Ok(_) => debug!("Wrote config"),
+        Err(err) => {
+            error!("Failed to write config: {}", err);
+            let _ = fs::remove_file(&temp_path);
+        }
+    }
 }
-- 
2.43.0


From 0c7a9c03fc12263766f454b9ff2828524b43ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:20 +0000
Subject: [PATCH 096/116] fix: report mod files whose names are no text instead
 of panicking

---
 .../src/mod_processing/pakfile_reading.rs          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 3b6f757..227c130 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -25,7 +25,11 @@ pub(crate) fn read_pak_files(
     for file in mod_files.iter() {
         let file_path = &file.path;
         let file_result = (|| -> Result<(), ModLoaderWarning> {
-            let file_name = file_path.file_name().unwrap().to_str().unwrap().to_owned();
+            let file_name = file_path
+                .file_name()
+                .unwrap()
+                .to_string_lossy()
+                .into_owned();
 
             let file = fs::File::open(file_path)
                 .map_err(|err| ModLoaderWarning::from(err).with_mod_id(file_name.clone()))?;
@@ -46,11 +50,9 @@ pub(crate) fn read_pak_files(
 
             let metadata: Metadata = unreal_mod_metadata::from_slice(&record).map_err(|err| {
                 warn!("json error: {}", err);
-                ModLoaderWarning::invalid_metadata(file_name)
+                ModLoaderWarning::invalid_metadata(file_name.clone())
             })?;
 
-            let file_name = file_path.file_name().unwrap().to_str().unwrap().to_owned();
-
             // check that filename generally matches
             if !verify::verify_mod_file_name(&file_name) {
                 return Err(ModLoaderWarning::invalid_mod_file_name(file_name));
@@ -105,13 +107,13 @@ pub(crate) fn read_pak_files(
             Ok(_) => {
                 debug!(
                     "Successfully read metadata for {:?}",
-                    file_path.file_name().unwrap().to_str().unwrap()
+                    file_path.file_name().unwrap()
                 );
             }
             Err(err) => {
                 warn!(
                     "Failed to read pak file {:?}, error: {}, deleting...",
-                    file_path.file_name().unwrap().to_str().unwrap(),
+                    file_path.file_name().unwrap(),
                     err
                 );
 
-- 
2.43.0


From 22560b696644df1456e798c5616d0822cb23541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:20 +0000
Subject: [PATCH 097/116] fix: know the latest version of mods that are kept at
 another one

---
 .../src/mod_processing/version_handling.rs    | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index ae07e2d..204bb57 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -10,23 +10,25 @@ use crate::ModLoaderAppData;
 
 pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
     for (_, game_mod) in data.game_mods.iter_mut() {
+        // versions that only the index file knows of are not there yet
+        let mut versions = game_mod
+            .versions
+            .iter()
+            .filter(|(_, version)| version.downloaded)
+            .map(|(version, _)| version)
+            .collect::<Vec<&Version>>();
+        if versions.is_empty() {
+            versions.extend(game_mod.versions.keys());
+        }
+        versions.sort();
+        let latest_version = Some((*versions.last().unwrap()).clone());
+
         // if using latest indirect, find version
         if let SelectedVersion::LatestIndirect(_) = game_mod.selected_version {
-            // versions that only the index file knows of are not there yet
-            let mut versions = game_mod
-                .versions
-                .iter()
-                .filter(|(_, version)| version.downloaded)
-                .map(|(version, _)| version)
-                .collect::<Vec<&Version>>();
-            if versions.is_empty() {
-                versions.extend(game_mod.versions.keys());
-            }
-            versions.sort();
-            game_mod.selected_version =
-                SelectedVersion::LatestIndirect(Some((*versions.last().unwrap()).clone()));
-
-            game_mod.latest_version = Some((*versions.last().unwrap()).clone());
+            game_mod.selected_version = SelectedVersion::LatestIndirect(latest_version.clone());
+            game_mod.latest_version = latest_version;
+        } else if game_mod.latest_version < latest_version {
+            game_mod.latest_version = latest_version;
         }
     }
 }
-- 
2.43.0


From c351da4024f68544353290267ba880b67efb9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 098/116] fix: AC7 encryption of files shorter than the package
 magic panics

---
 unreal_asset/src/ac7.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/ac7.rs b/unreal_asset/src/ac7.rs
index 8f5e40d..85bf6ea 100644
--- a/unreal_asset/src/ac7.rs
+++ b/unreal_asset/src/ac7.rs
@@ -130,7 +130,9 @@ pub fn decrypt(uasset: &[u8], uexp: &[u8], mut key: AC7XorKey) -> (Vec<u8>, Vec<
 /// Decrypt a uasset file using a given key
 pub fn decrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut decrypted = vec![0u8; uasset.len()];
-    decrypted[..4].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)); // todo: replace with constant
+    // a file can be shorter than the magic
+    let magic_len = uasset.len().min(4);
+    decrypted[..magic_len].copy_from_slice(&u32::to_be_bytes(UE4_ASSET_MAGIC)[..magic_len]); // todo: replace with constant
 
     for i in 4..uasset.len() {
         decrypted[i] = key.xor_byte(uasset[i]);
@@ -163,7 +165,8 @@ const AC7_ASSET_MAGIC: u32 = 0x37454341;
 /// Encrypt a uasset file using a given key
 pub fn encrypt_uasset(uasset: &[u8], key: &mut AC7XorKey) -> Vec<u8> {
     let mut encrypted = vec![0u8; uasset.len()];
-    encrypted[..4].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC));
+    let magic_len = uasset.len().min(4);
+    encrypted[..magic_len].copy_from_slice(&u32::to_le_bytes(AC7_ASSET_MAGIC)[..magic_len]);
 
     for i in 4..uasset.len() {
         encrypted[i] = key.xor_byte(uasset[i]);
-- 
2.43.0


From 72a6a5d563e4497fc4549c731324d80533febdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 099/116] fix: mappings don't remember their file version

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..231bd42 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -248,9 +248,9 @@ impl Usmap {
             ));
         }
 
-        let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
+        self.version = EUsmapVersion::try_from(reader.read_u8()?)?;
 
-        let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
+        let mut has_versioning = self.version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
             has_versioning = reader.read_bool()?;
         }
-- 
2.43.0


From eb4b141b1360e694adf91e9a7e60e1282a5edf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 100/116] fix: elements of static arrays can't be looked up in
 mappings

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 231bd42..e5f2a16 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -112,7 +112,7 @@ impl UsmapSchema {
                 property.schema_index += j as u16;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
-- 
2.43.0


From b816e785728532974b635f3d6c02d6dc9b9bbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 101/116] fix: mappings with out of range values panic

---
 .../unreal_asset_base/src/unversioned/mod.rs     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index e5f2a16..b91dd3f 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -109,7 +109,10 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index =
+                    property.schema_index.checked_add(j as u16).ok_or_else(|| {
+                        Error::invalid_file("Schema index is out of range".to_string())
+                    })?;
 
                 properties.insert(
                     (property.name.clone(), property.array_index as u32),
@@ -332,8 +335,10 @@ impl Usmap {
         );
 
         self.name_map = reader.read_array(|reader| {
-            let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
+            let name_length = reader.read_u8()?.checked_sub(1).ok_or_else(|| {
+                Error::invalid_file("Invalid name length in the name map".to_string())
+            })?;
+            let mut buf = vec![0u8; name_length as usize];
             reader.read_exact(&mut buf)?;
             Ok(String::from_utf8(buf)?)
         })?;
@@ -385,7 +390,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    let module_path = module_paths.get(index as usize).ok_or_else(|| {
+                        Error::invalid_file("Module path index is out of range".to_string())
+                    })?;
+                    schema.module_path = Some(module_path.clone());
                 }
             }
         }
-- 
2.43.0


From 274df3f53185739f5c2a05785f370295a572b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 102/116] fix: sizes stated by mappings are trusted

---
 .../unreal_asset_base/src/unversioned/mod.rs  | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index b91dd3f..468b190 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -234,6 +234,20 @@ impl Usmap {
         )
     }
 
+    /// Decompress the contents of a usmap file, which must have the stated size
+    fn decompress(decompressor: impl Read, size: u32) -> Result<Vec<u8>, Error> {
+        let mut data = Vec::new();
+        decompressor.take(size as u64 + 1).read_to_end(&mut data)?;
+
+        if data.len() != size as usize {
+            return Err(Error::invalid_file(
+                "decompressed_size doesn't match the decompressed data".to_string(),
+            ));
+        }
+
+        Ok(data)
+    }
+
     /// Parse usmap file
     pub fn parse_data<C: Read + Seek>(&mut self, cursor: C) -> Result<(), Error> {
         let mut reader = RawReader::<PackageIndex, C>::new(
@@ -270,8 +284,7 @@ impl Usmap {
         let compressed_size = reader.read_u32::<LE>()?;
         let decompressed_size = reader.read_u32::<LE>()?;
 
-        let mut compressed_data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut compressed_data)?;
+        let compressed_data = reader.read_bytes(compressed_size as i64)?;
 
         let data = match self.compression_method {
             EUsmapCompressionMethod::None => {
@@ -284,20 +297,13 @@ impl Usmap {
                 compressed_data
             }
             EUsmapCompressionMethod::Brotli => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
-                brotli::BrotliDecompress(
-                    &mut Cursor::new(compressed_data),
-                    &mut decompressed_data,
-                )?;
-                decompressed_data.into_inner()
+                let decompressor =
+                    brotli::Decompressor::new(Cursor::new(compressed_data), 4096);
+                Self::decompress(decompressor, decompressed_size)?
             }
             EUsmapCompressionMethod::ZStandard => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
-                zstd::stream::copy_decode(
-                    &mut Cursor::new(compressed_data),
-                    &mut decompressed_data,
-                )?;
-                decompressed_data.into_inner()
+                let decompressor = zstd::stream::Decoder::new(Cursor::new(compressed_data))?;
+                Self::decompress(decompressor, decompressed_size)?
             }
             EUsmapCompressionMethod::Oodle => {
                 #[cfg(not(feature = "oodle"))]
@@ -344,7 +350,7 @@ impl Usmap {
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -362,7 +368,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
-- 
2.43.0


From ebf59bda5f2fe6cc4af806f41d30007729a54b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 103/116] fix: looking up a property of a type that inherits
 from itself never ends

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 468b190..6f56259 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -183,7 +183,12 @@ impl Usmap {
     ) -> Vec<&UsmapProperty> {
         let mut properties = Vec::new();
 
-        while let Some(schema) = self.schemas.get_by_key(schema_name) {
+        // no chain of super types is longer than this, unless it is a cycle
+        for _ in 0..self.schemas.len() {
+            let Some(schema) = self.schemas.get_by_key(schema_name) else {
+                break;
+            };
+
             properties.extend(schema.properties.values());
             schema_name = schema.super_type.as_str();
         }
@@ -201,7 +206,8 @@ impl Usmap {
         let mut optional_schema_name = ancestry.get_parent().map(|e| e.get_owned_content());
 
         let mut global_index = 0;
-        loop {
+        // no chain of super types is longer than this, unless it is a cycle
+        for _ in 0..self.schemas.len() {
             let Some(schema_name) = optional_schema_name else {
                 break;
             };
-- 
2.43.0


From fe57db07a25e61e03fc4a64a5d22c2ce77863967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 104/116] fix: deeply nested types in mappings overflow the
 stack

---
 .../src/unversioned/properties/mod.rs                | 12 ++++++++++++
 .../src/unversioned/usmap_reader.rs                  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
index 9b077e0..0306109 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/properties/mod.rs
@@ -158,12 +158,22 @@ pub enum UsmapPropertyData {
 }
 
 impl UsmapPropertyData {
+    /// Deepest nesting of types that is read
+    const MAX_DEPTH: usize = 256;
+
     /// Read an `UsmapPropertyData` from an asset
     pub fn new<R: ArchiveReader<PackageIndex>>(
         asset: &mut UsmapReader<'_, '_, R>,
     ) -> Result<Self, Error> {
         let prop_type: EPropertyType = EPropertyType::try_from(asset.read_u8()?)?;
 
+        if asset.type_depth >= Self::MAX_DEPTH {
+            return Err(Error::invalid_file(
+                "Property type is nested too deeply".to_string(),
+            ));
+        }
+        asset.type_depth += 1;
+
         let res: UsmapPropertyData = match prop_type {
             EPropertyType::ArrayProperty => UsmapArrayPropertyData::new(asset)?.into(),
             EPropertyType::StructProperty => UsmapStructPropertyData::new(asset)?.into(),
@@ -176,6 +186,8 @@ impl UsmapPropertyData {
             .into(),
         };
 
+        asset.type_depth -= 1;
+
         Ok(res)
     }
 }
diff --git a/unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs b/unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs
index 4f83044..8b35497 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/usmap_reader.rs
@@ -29,6 +29,8 @@ pub struct UsmapReader<'parent_reader, 'asset, R: ArchiveReader<PackageIndex>> {
     name_map: &'asset [String],
     /// Custom versions
     custom_versions: &'asset [CustomVersion],
+    /// Nesting depth of the property type that is being read
+    pub(crate) type_depth: usize,
 }
 
 impl<'parent_reader, 'asset, R: ArchiveReader<PackageIndex>>
@@ -44,6 +46,7 @@ impl<'parent_reader, 'asset, R: ArchiveReader<PackageIndex>>
             parent_reader,
             name_map,
             custom_versions,
+            type_depth: 0,
         }
     }
 
-- 
2.43.0


From 67711a25ca16a3fbee645da35a8f50f319fd31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:44 +0000
Subject: [PATCH 105/116] fix: mapping files are refused because their magic is
 read backwards

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 6f56259..71d16cb 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -4,7 +4,7 @@ use std::hash::Hash;
 use std::io::{Cursor, Read, Seek};
 
 use bitflags::bitflags;
-use byteorder::{ReadBytesExt, LE};
+use byteorder::{ReadBytesExt, BE, LE};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
 
 use crate::containers::{Chain, IndexedMap, NameMap};
@@ -264,7 +264,7 @@ impl Usmap {
             NameMap::new(),
         );
 
-        let magic = reader.read_u16::<LE>()?;
+        let magic = reader.read_u16::<BE>()?;
         if magic != Self::ASSET_MAGIC {
             return Err(Error::invalid_file(
                 "File is not a valid usmap file".to_string(),
-- 
2.43.0


From 046261bd0d48fbfd4989dc178b0fbcdf2ff4aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:01 +0000
Subject: [PATCH 106/116] fix: pak entries with an unknown compression method
 are read as if they were not compressed

---
 unreal_pak/src/compression.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index ab0abf7..2517ac9 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -47,21 +47,27 @@ impl Compression {
         pak_version: PakVersion,
         compression: &CompressionMethods,
     ) -> Self {
-        if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
-            if compression_method_num == 0 {
-                Compression::None
-            } else if compression_method_num <= 5 {
-                compression.0[compression_method_num as usize - 1]
-            } else {
+        if compression_method_num == 0 {
+            return Compression::None;
+        }
+
+        let method = if pak_version >= PakVersion::FnameBasedCompressionMethodInitial {
+            compression.0.get(compression_method_num as usize - 1)
+        } else {
+            match compression_method_num {
+                0x01 | 0x10 | 0x20 => Some(&Compression::Known("Zlib")),
+                _ => None,
+            }
+        };
+
+        match method {
+            // the number of an unused slot does not mean that the entry is not compressed
+            None | Some(Compression::None) => {
                 let mut arr = [0; 0x20];
                 arr[0] = compression_method_num as u8;
                 Compression::Unknown(arr)
             }
-        } else {
-            match compression_method_num {
-                0x01 | 0x10 | 0x20 => Compression::zlib(),
-                _ => Compression::None,
-            }
+            Some(method) => *method,
         }
     }
 
-- 
2.43.0


From 54d4e3c9b7fa6b6edc999f70146669c51c1d1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:56 +0000
Subject: [PATCH 107/116] fix: mods with a pre-release version are reported as
 unresolved although nobody depends on them

---
 .../src/mod_processing/dependencies.rs              | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 425809b..8c75e4a 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -125,17 +125,16 @@ impl DependencyGraph {
         let mut warnings = Vec::new();
 
         for node in self.graph.node_indices() {
-            let requirements = self
-                .graph
-                .edges_directed(node, Direction::Incoming)
-                .map(|e| e.weight().clone());
-            let requirement = intersect_requirements(requirements);
-
             let weight = self.graph.node_weight(node).unwrap();
+            // not the combined requirement, pre-releases only match if each of them asks for one
             let matching_version = weight
                 .versions
                 .iter()
-                .filter(|e| requirement.matches(e))
+                .filter(|version| {
+                    self.graph
+                        .edges_directed(node, Direction::Incoming)
+                        .all(|e| e.weight().matches(version))
+                })
                 .max();
 
             match matching_version {
-- 
2.43.0


From 941da882e2bed274eb2834b57f7d404e60b5acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:47 +0000
Subject: [PATCH 108/116] fix: UE5 versions are guessed to be 4.27

---
 unreal_asset/unreal_asset_base/src/engine_version.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 1751919..bcbb92d 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -255,7 +255,16 @@ pub fn get_possible_versions(
             .map(|(_, engine_version)| *engine_version),
     );
 
-    possible_versions
+    // engine versions that match both object versions are the only candidates if there are any
+    let mut matching_versions = possible_versions.clone();
+    matching_versions
+        .retain(|e| get_object_versions(*e) == (object_version, object_version_ue5));
+    matching_versions.dedup();
+
+    match matching_versions.is_empty() {
+        true => possible_versions,
+        false => matching_versions,
+    }
 }
 
 /// Get object versions for a given engine version
-- 
2.43.0


From f4a718bac4e328e8b64f7ef78f0fd7aecda7c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:47 +0000
Subject: [PATCH 109/116] fix: UE5.2 is given an object version that no engine
 writes

---
 unreal_asset/unreal_asset_base/src/engine_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index bcbb92d..9e6021f 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -229,7 +229,7 @@ lazy_static! {
                 EngineVersion::VER_UE5_1
             ),
             (
-                ObjectVersionUE5::AUTOMATIC_VERSION,
+                ObjectVersionUE5::DATA_RESOURCES,
                 EngineVersion::VER_UE5_2
             )
         ]);
-- 
2.43.0


From 30a7427b4f1e9cdd1899fb6706a596b98e3f82f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:47 +0000
Subject: [PATCH 110/116] fix: guessing the engine version panics on the
 largest custom version number

---
 unreal_asset/unreal_asset_base/src/engine_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9e6021f..306b9d0 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -313,7 +313,7 @@ pub fn guess_engine_version(
             .get_engine_version_from_version_number(custom_version.version)
             .unwrap_or(EngineVersion::UNKNOWN);
         let current_max_introduced = custom_version
-            .get_engine_version_from_version_number(custom_version.version + 1)
+            .get_engine_version_from_version_number(custom_version.version.wrapping_add(1))
             .unwrap_or(EngineVersion::UNKNOWN);
 
         if current_min_introduced != EngineVersion::UNKNOWN
-- 
2.43.0


From b7f8973a4b455304be828cbc9bf50266ba317152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 111/116] fix: asset registry dependencies are looked up among
 all nodes

---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..45acad0 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -460,7 +460,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 1fa786a9b83aa7f8c9394385ef8079739d5f4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 112/116] fix: the asset registry's dependency section size
 doesn't include itself

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..ed36952 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -137,7 +137,7 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            writer.write_i64::<LE>(end_pos as i64 - pos as i64 - 8)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From 68582aec91b5e6caf4d459ee175ad5b6c1909ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 113/116] fix: asset registry dependency flags are read and
 written per dependency

---
 .../src/objects/depends_node.rs               | 108 ++++--------------
 1 file changed, 22 insertions(+), 86 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 45acad0..bb04a78 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -1,15 +1,11 @@
 //! Asset bundle depends node
 
-use bitvec::{order::Lsb0, prelude::BitVec};
+use bitvec::{field::BitField, order::Lsb0, prelude::BitVec};
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
-use lazy_static::lazy_static;
-
-use unreal_helpers::BitVecExt;
 
 use unreal_asset_base::{
     custom_version::FAssetRegistryVersionType,
     error::RegistryError,
-    flags::EDependencyProperty,
     reader::{ArchiveReader, ArchiveWriter},
     types::{FName, PackageIndexTrait},
     Error,
@@ -133,34 +129,19 @@ const PACKAGE_FLAG_SET_WIDTH: i32 = 1 << PACKAGE_FLAG_WIDTH;
 const MANAGE_FLAG_WIDTH: i32 = 1;
 const MANAGE_FLAG_SET_WIDTH: i32 = 1;
 
-lazy_static! {
-    static ref HARD_BIT: u8 = DependsNode::package_properties_to_byte(
-        EDependencyProperty::HARD | EDependencyProperty::GAME | EDependencyProperty::BUILD
-    );
-    static ref SOFT_BIT: u8 = DependsNode::package_properties_to_byte(
-        EDependencyProperty::GAME | EDependencyProperty::BUILD
-    );
-}
-
-#[allow(unused)]
+/// Sets of package properties that include `EDependencyProperty::HARD`
+const HARD_PACKAGE_BITS: u32 = 0b1010_1010;
 const HARD_MANAGE_BITS: u32 = 0x1;
 #[allow(unused)]
 const SOFT_MANAGE_BITS: u32 = 0x0;
 
 impl DependsNode {
-    /// Package `EDependencyProperty` enum into a byte
-    #[allow(clippy::identity_op)] // allow for clarity
-    fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
-    }
-
     /// Read `DependsNode` dependencies
     fn read_dependencies<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bits: u32,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -202,39 +183,25 @@ impl DependsNode {
 
         let mut hard_dependencies = Vec::new();
         let mut soft_dependencies = Vec::new();
+        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
+        let mut soft_flag_bits = BitVec::<u32, Lsb0>::new();
 
         for index in &sort_indexes {
             let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
-                .as_deref()
-                .copied()
-                .unwrap_or(false)
-            {
+            let flags_start = *index as usize * flag_set_width as usize;
+            let flags = &in_flag_bits[flags_start..flags_start + flag_set_width as usize];
+
+            if flags.load_le::<u32>() & hard_bits != 0 {
                 hard_dependencies.push(node.clone());
+                out_flag_bits.extend_from_bitslice(flags);
             } else {
                 soft_dependencies.push(node.clone());
+                soft_flag_bits.extend_from_bitslice(flags);
             }
         }
 
-        let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
-
-            out_flag_bits.set_range_from_range(
-                write_index * flag_set_width,
-                flag_set_width,
-                &in_flag_bits,
-                read_index * flag_set_width,
-            );
-        }
+        // flags are in the same order as dependencies get written
+        out_flag_bits.extend_from_bitslice(&soft_flag_bits);
 
         Ok((hard_dependencies, soft_dependencies, out_flag_bits))
     }
@@ -248,51 +215,18 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
 
         writer.write_i32::<LE>(dependencies_length)?;
 
-        for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(hard_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                i as i32 * flag_set_width,
-            );
-        }
-
-        let inital_soft_index = hard_dependencies.len() as i32;
-
-        for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
-            writer.write_i32::<LE>(soft_dependency.index)?;
-
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
-            out_flag_bits.set_range_from_range(
-                index,
-                flag_set_width,
-                flags,
-                (i as i32 + inital_soft_index) * flag_set_width,
-            );
+        for dependency in hard_dependencies.iter().chain(soft_dependencies) {
+            writer.write_i32::<LE>(dependency.index)?;
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
+        let mut out_flag_bits = flags.clone();
+        out_flag_bits.resize(dependencies_length as usize * flag_set_width as usize, false);
 
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
-            }
-            byte
-        }) {
-            writer.write_u8(byte)?;
+        for flag_word in out_flag_bits.chunks(32) {
+            writer.write_u32::<LE>(flag_word.load_le::<u32>())?;
         }
 
         Ok(())
@@ -379,6 +313,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            HARD_PACKAGE_BITS,
         )?;
 
         let name_dependencies =
@@ -389,6 +324,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                HARD_MANAGE_BITS,
             )?;
 
         let referencers =
-- 
2.43.0


From 020c8ed3cc458a9004c84f7fe12ce3f3a031d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:51 +0000
Subject: [PATCH 114/116] fix: asset registry counts and sizes are not trusted

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 27 ++++++++++++++++---
 .../src/objects/depends_node.rs               |  9 ++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index ed36952..5d9d135 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -60,6 +60,20 @@ pub struct AssetRegistryState {
 }
 
 impl AssetRegistryState {
+    /// Check that there is data for the depends nodes, each of them takes more than a byte
+    fn check_num_depends_nodes<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+        num_depends_nodes: i32,
+    ) -> Result<(), Error> {
+        let remaining = asset.data_length()?.saturating_sub(asset.position());
+        if num_depends_nodes < 0 || num_depends_nodes as u64 > remaining {
+            return Err(Error::invalid_file(format!(
+                "Invalid number of depends nodes: {num_depends_nodes}"
+            )));
+        }
+        Ok(())
+    }
+
     /// Read an `AssetRegistryState` from an asset
     fn load<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -72,7 +86,7 @@ impl AssetRegistryState {
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
             let local_num_depends_nodes = asset.read_i32::<LE>()?;
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            Self::check_num_depends_nodes(asset, local_num_depends_nodes)?;
 
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
@@ -86,10 +100,17 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
+            let dependency_section_end = u64::try_from(dependency_section_size)
+                .ok()
+                .and_then(|size| asset.position().checked_add(size))
+                .ok_or_else(|| {
+                    Error::invalid_file(format!(
+                        "Invalid dependency section size: {dependency_section_size}"
+                    ))
+                })?;
             let local_num_depends_nodes = asset.read_i32::<LE>()?;
 
-            *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
+            Self::check_num_depends_nodes(asset, local_num_depends_nodes)?;
             for i in 0..local_num_depends_nodes {
                 depends_nodes.push(DependsNode::new(i, version));
             }
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index bb04a78..ad89223 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -223,7 +223,10 @@ impl DependsNode {
         }
 
         let mut out_flag_bits = flags.clone();
-        out_flag_bits.resize(dependencies_length as usize * flag_set_width as usize, false);
+        out_flag_bits.resize(
+            dependencies_length as usize * flag_set_width as usize,
+            false,
+        );
 
         for flag_word in out_flag_bits.chunks(32) {
             writer.write_u32::<LE>(flag_word.load_le::<u32>())?;
@@ -425,8 +428,8 @@ impl DependsNode {
         };
         let num_referencers = asset.read_i32::<LE>()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From 80f98f3ee34b9dba9f9b4519e79274607179b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 115/116] fix: a native library without a file name is an error

---
 unreal_cpp_bootstrapper/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_cpp_bootstrapper/src/lib.rs b/unreal_cpp_bootstrapper/src/lib.rs
index 1125f1a..f6d6afb 100644
--- a/unreal_cpp_bootstrapper/src/lib.rs
+++ b/unreal_cpp_bootstrapper/src/lib.rs
@@ -1,6 +1,6 @@
 use std::env;
 use std::fs::{self, File, OpenOptions};
-use std::io::Write;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use error::CppBootstrapperError;
@@ -55,7 +55,13 @@ pub fn bootstrap(
             let dll_path = PathBuf::from(&dll);
             let dll_data = pak.read_entry(&dll)?;
 
-            let path = extract_path.join(dll_path.file_name().unwrap().to_str().unwrap());
+            let file_name = dll_path.file_name().ok_or_else(|| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("Invalid native library path: {dll}"),
+                )
+            })?;
+            let path = extract_path.join(file_name);
 
             let mut file = OpenOptions::new()
                 .create(true)
-- 
2.43.0


From cf62cf301b9270b0c0010cf96663244c6a7b88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 116/116] fix: keep the latest version the index file names
 when other mods are added

---
 unreal_mod_manager/src/mod_processing/mod.rs              | 2 +-
 unreal_mod_manager/src/mod_processing/version_handling.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index f024e1f..498a482 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -42,7 +42,7 @@ pub(crate) fn process_modfiles(
     insert_mods_from_readdata(&mods_read, &mut data_guard, set_enabled);
 
     // pick version
-    auto_pick_versions(&mut data_guard);
+    auto_pick_versions(&mut data_guard, &filter);
 
     // set top level data
     set_mod_data_from_version(&mut data_guard, &filter);
diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index 204bb57..57a46ff 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -8,8 +8,12 @@ use crate::game_mod::SelectedVersion;
 use crate::version::GameBuild;
 use crate::ModLoaderAppData;
 
-pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
-    for (_, game_mod) in data.game_mods.iter_mut() {
+pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData, filter: &[String]) {
+    for (mod_id, game_mod) in data.game_mods.iter_mut() {
+        if !filter.contains(mod_id) {
+            continue;
+        }
+
         // versions that only the index file knows of are not there yet
         let mut versions = game_mod
             .versions
-- 
2.43.0

