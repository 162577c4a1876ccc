From d8d35394880efa2ae723b1c7d6042b714c3deb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:25 +0000
Subject: [PATCH 01/24] fix: report an overlong extra field instead of
 panicking on the subtraction

---
 src/base/read/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..cbe6b2f 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -148,7 +148,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = extra_fields_from_bytes(extra_field, header.uncompressed_size, header.compressed_size)?;
     let comment_basic = io::read_bytes(reader, header.file_comment_length.into()).await?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
@@ -214,7 +214,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = extra_fields_from_bytes(extra_field, header.uncompressed_size, header.compressed_size)?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
     let (uncompressed_size, compressed_size) =
@@ -259,6 +259,19 @@ where
     Ok(Some(entry))
 }
 
+/// Parses the extra fields of a header, having ensured that each of them ends within the given data.
+fn extra_fields_from_bytes(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+    let mut remaining = data.as_slice();
+
+    while let [_, _, size_low, size_high, content @ ..] = remaining {
+        let field_size = u16::from_le_bytes([*size_low, *size_high]);
+        let overlong = ZipError::InvalidExtraFieldHeader(field_size, content.len());
+        remaining = content.get(field_size as usize..).ok_or(overlong)?;
+    }
+
+    parse_extra_fields(data, uncompressed_size, compressed_size)
+}
+
 fn detect_comment(basic: Vec<u8>, basic_is_utf8: bool, extra_fields: &[ExtraField]) -> ZipString {
     if basic_is_utf8 {
         ZipString::new(basic, StringEncoding::Utf8)
-- 
2.43.0


From 92ec5aa1fb2e307d045ce7f6750773d64a4b6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 02/24] fix: keep a zero-length extra field at the end of the
 extra field area

---
 src/base/read/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index cbe6b2f..88916e3 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -260,7 +260,7 @@ where
 }
 
 /// Parses the extra fields of a header, having ensured that each of them ends within the given data.
-fn extra_fields_from_bytes(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+fn extra_fields_from_bytes(mut data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
     let mut remaining = data.as_slice();
 
     while let [_, _, size_low, size_high, content @ ..] = remaining {
@@ -269,6 +269,8 @@ fn extra_fields_from_bytes(data: Vec<u8>, uncompressed_size: u32, compressed_siz
         remaining = content.get(field_size as usize..).ok_or(overlong)?;
     }
 
+    // A field header is only recognised if followed by at least one byte, even if the field itself has no content.
+    data.push(0);
     parse_extra_fields(data, uncompressed_size, compressed_size)
 }
 
-- 
2.43.0


From b1c43a4103138458bfa67c16cd72da092eecbf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 03/24] fix: don't preallocate whatever number of entries an
 archive claims

---
 src/base/read/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 88916e3..ff4a513 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,9 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -85,8 +87,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The count comes from the archive, so don't trust it for more than a moderate preallocation.
+    let mut entries = Vec::with_capacity(num_of_entries.min(NON_ZIP64_MAX_NUM_FILES.into()));
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From 58f02f5c0466a6e54fabc7bc0458fa7105df8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 04/24] fix: verify that a ZIP64 locator points to a ZIP64 end
 record before trusting its offset

---
 src/base/read/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index ff4a513..bf21b55 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -23,6 +23,7 @@ use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
 use crate::spec::consts::{
     CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
 };
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -58,13 +59,26 @@ where
             reader.seek(SeekFrom::Start(offset)).await?;
             let zip64_locator = Zip64EndOfCentralDirectoryLocator::try_from_reader(&mut reader).await?;
 
+            let needs_zip64 =
+                eocdr.num_of_entries == NON_ZIP64_MAX_NUM_FILES || eocdr.cent_dir_offset == NON_ZIP64_MAX_SIZE;
+
             match zip64_locator {
-                Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
-                    let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
-                    (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
+                // The Zip64 EOCDR must precede its locator. What doesn't point to one merely looks like a locator, eg. as
+                // the end of an entry's comment might.
+                Some(locator) if locator.relative_offset < offset => {
+                    reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
+                    match crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await {
+                        Err(ZipError::UnexpectedHeaderError(..)) if !needs_zip64 => {
+                            (CombinedCentralDirectoryRecord::from(&eocdr), false)
+                        }
+                        result => {
+                            result?;
+                            let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
+                            (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
+                        }
+                    }
                 }
-                None => (CombinedCentralDirectoryRecord::from(&eocdr), false),
+                _ => (CombinedCentralDirectoryRecord::from(&eocdr), false),
             }
         }
     };
-- 
2.43.0


From 8832af565ab4ab03a04c4c3596710921b0b45848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 05/24] fix: don't swap the sizes of entries streamed with
 force_no_zip64

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 6d1b360ca198b60a78fcdd4dc582d0d4b0b71999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 06/24] fix: drop the ZIP64 extra field of entries copied from
 another archive

---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..99dbfab 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // A zip64 extended field carried over from another archive doesn't describe this entry.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..46c3cb5 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // A zip64 extended field carried over from another archive doesn't describe this entry.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From aae3393c91cd011907191c51d5f819aa2a7bdc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 07/24] fix: refuse an archive comment which doesn't fit its
 length field

---
 src/base/write/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..cbd6f0f 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -187,6 +187,10 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let file_comm_length = match &self.comment_opt {
+            Some(comment) => comment.len().try_into().map_err(|_| ZipError::CommentTooLarge)?,
+            None => 0,
+        };
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -258,7 +262,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From c01d4d6da8db61c8e866e50c8e3b74b25ae6a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 08/24] fix: replace the previous value in the date builder's
 setters

---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..a4086a6 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = self.0.date & !0xFE00 | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = self.0.date & !0x1E0 | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = self.0.date & !0x1F | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = self.0.time & !0xF800 | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = self.0.time & !0x7E0 | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = self.0.time & !0x1F | second;
         self
     }
 
-- 
2.43.0


From 8ccc744cbe0a4d4020cc9c57c997258df15e1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 09/24] fix: don't panic when the compress helper is given a
 stored entry

---
 src/base/write/entry_whole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 46c3cb5..7e147be 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -258,6 +258,7 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
     let level = entry.compression_level;
 
     match entry.compression() {
+        Compression::Stored => data.to_vec(),
         #[cfg(feature = "deflate")]
         Compression::Deflate => {
             let mut writer = write::DeflateEncoder::with_quality(Cursor::new(Vec::new()), level);
-- 
2.43.0


From ccec84b14e0f59f8cb09675f6cc76877c2bb630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 10/24] fix: end the streaming traversal of an archive without
 entries

---
 src/base/read/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index bf21b55..21b3248 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -22,8 +22,8 @@ use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
 use crate::spec::consts::{
-    CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
-    ZIP64_EOCDR_SIGNATURE,
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_NUM_FILES, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH,
+    ZIP64_EOCDL_LENGTH, ZIP64_EOCDR_SIGNATURE,
 };
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -224,6 +224,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // Without any entries, there is no central directory header either.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 8fbb5c5eee6a1b299548e18f4686386fb53e2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 11/24] fix: don't accept names, comments and extra fields cut
 short by the end of the data

---
 src/base/read/io/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..06729e2 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -29,6 +29,10 @@ where
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
 
+    if buffer.len() != length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+
     Ok(buffer)
 }
 
-- 
2.43.0


From 473e9d64a1373594ea750db1314be529704400b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 12/24] fix: don't mistake a signature within the archive
 comment for the end record

---
 src/base/read/io/locator.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/base/read/io/locator.rs b/src/base/read/io/locator.rs
index 5e7c0ad..1c497c6 100644
--- a/src/base/read/io/locator.rs
+++ b/src/base/read/io/locator.rs
@@ -50,6 +50,7 @@ where
     let length = reader.seek(SeekFrom::End(0)).await?;
     let signature = &EOCDR_SIGNATURE.to_le_bytes();
     let mut buffer: [u8; BUFFER_SIZE] = [0; BUFFER_SIZE];
+    let mut fallback = None;
 
     let mut position = length.saturating_sub(BUFFER_SIZE as u64);
     reader.seek(SeekFrom::Start(position)).await?;
@@ -66,13 +67,20 @@ where
             read += bytes_read;
         }
 
-        if let Some(match_index) = reverse_search_buffer(&buffer[..read], signature) {
-            return Ok(position + (match_index + 1) as u64);
+        // The comment may itself contain the signature, so prefer a record whose comment ends where the data does.
+        let mut unsearched = &buffer[..read];
+        while let Some(match_index) = reverse_search_buffer(unsearched, signature) {
+            let offset = position + (match_index + 1) as u64;
+            if comment_end(&mut reader, offset, length).await? == Some(length) {
+                return Ok(offset);
+            }
+            fallback.get_or_insert(offset);
+            unsearched = &unsearched[..match_index];
         }
 
         // If we hit the start of the data or the lower bound, we're unable to locate the EOCDR.
         if position == 0 || position <= length.saturating_sub(EOCDR_LOWER_BOUND) {
-            return Err(ZipError::UnableToLocateEOCDR);
+            return fallback.ok_or(ZipError::UnableToLocateEOCDR);
         }
 
         // To handle the case where the EOCDR signature crosses buffer boundaries, we simply overlap reads by the
@@ -83,6 +91,22 @@ where
     }
 }
 
+/// Returns where the comment of the record at this offset (excluding the signature) ends, if the record is complete.
+async fn comment_end<R>(reader: &mut R, offset: u64, length: u64) -> ZipResult<Option<u64>>
+where
+    R: AsyncRead + AsyncSeek + Unpin,
+{
+    let comment_offset = offset + EOCDR_LENGTH as u64;
+    if comment_offset > length {
+        return Ok(None);
+    }
+
+    let mut comment_length = [0; 2];
+    reader.seek(SeekFrom::Start(comment_offset - comment_length.len() as u64)).await?;
+    reader.read_exact(&mut comment_length).await?;
+    Ok(Some(comment_offset + u16::from_le_bytes(comment_length) as u64))
+}
+
 /// A naive reverse linear search along the buffer for the specified signature bytes.
 ///
 /// This is already surprisingly performant. For instance, using memchr::memchr() to match for the first byte of the
-- 
2.43.0


From b876345767eb833fcf51f72b07e305357dad4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 13/24] fix: put sizes and offsets which equal the ZIP64
 sentinel in the ZIP64 field

---
 src/base/write/entry_whole.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 7e147be..3980301 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -62,8 +62,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        let uncompressed_larger = self.entry.uncompressed_size >= NON_ZIP64_MAX_SIZE.into();
+        let compressed_larger = self.entry.compressed_size >= NON_ZIP64_MAX_SIZE.into();
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -83,7 +83,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        if self.lh_offset < NON_ZIP64_MAX_SIZE.into() {
             return Ok(());
         }
 
-- 
2.43.0


From 1fbceb4bf57575f7bf6326be60c32c22724f505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 14/24] fix: store the UTF-8 name or comment even if there is a
 Unicode extra field of unknown version

---
 src/base/write/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index cbd6f0f..763066d 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -295,13 +295,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -312,13 +315,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From 88e15be444f3bb54d73c4963d03b0b66123efaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 15/24] fix: don't list the entry which was refused for
 exceeding the classic entry limit

---
 src/base/write/entry_stream.rs | 9 +++++----
 src/base/write/entry_whole.rs  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 99dbfab..1c51a20 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -273,12 +273,13 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
+        if self.force_no_zip64 && self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
             if !*self.is_zip64 {
                 *self.is_zip64 = true;
             }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 3980301..e271752 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,11 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // Ensure that we can fit this many files in this archive if forcing no zip64
+        if self.writer.force_no_zip64 && self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         // A zip64 extended field carried over from another archive doesn't describe this entry.
         self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
 
@@ -230,11 +235,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
 
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
         if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.writer.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
             if !self.writer.is_zip64 {
                 self.writer.is_zip64 = true;
             }
-- 
2.43.0


From c4b7702bf4dbbcd2c916f967412edded6821ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 16/24] fix: write the ZIP64 end records if the central
 directory exceeds 4 GiB

---
 src/base/write/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 763066d..4bc4447 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -207,6 +207,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From 959b738e080b7c3e972e3998a676201edd39a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 17/24] fix: expect 8-byte sizes in the data descriptor of
 streamed ZIP64 entries

---
 src/base/read/stream.rs | 43 ++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index b4691c3..d63b059 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -46,7 +46,9 @@
 //! # }
 //! ```
 
+use crate::base::read::get_zip64_extra_field;
 use crate::base::read::io::entry::ZipEntryReader;
+use crate::entry::ZipEntry;
 use crate::error::Result;
 use crate::error::ZipError;
 
@@ -69,7 +71,24 @@ use super::io::entry::WithoutEntry;
 pub struct Ready<R>(R);
 
 /// A type which encodes that [`ZipFileReader`] is currently reading an entry.
-pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, bool);
+pub struct Reading<'a, R, E>(ZipEntryReader<'a, R, E>, Option<DataDescriptor>);
+
+/// The form of the data descriptor which follows an entry's data.
+enum DataDescriptor {
+    Classic,
+    Zip64,
+}
+
+impl DataDescriptor {
+    /// The sizes within the data descriptor are 8 bytes long if the local file header has a ZIP64 field.
+    fn of(entry: &ZipEntry) -> Option<Self> {
+        match (entry.data_descriptor, get_zip64_extra_field(entry.extra_fields())) {
+            (false, _) => None,
+            (true, None) => Some(Self::Classic),
+            (true, Some(_)) => Some(Self::Zip64),
+        }
+    }
+}
 
 /// A ZIP reader which acts over a non-seekable source.
 ///
@@ -96,7 +115,7 @@ where
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
 
-        Ok(Some(ZipFileReader(Reading(reader, entry.data_descriptor))))
+        Ok(Some(ZipFileReader(Reading(reader, DataDescriptor::of(&entry)))))
     }
 
     /// Opens the next entry for reading if the central directory hasn’t yet been reached.
@@ -108,7 +127,7 @@ where
 
         let length = if entry.data_descriptor { u64::MAX } else { entry.compressed_size };
         let reader = ZipEntryReader::new_with_owned(self.0 .0, entry.compression, length);
-        let data_descriptor = entry.data_descriptor;
+        let data_descriptor = DataDescriptor::of(&entry);
 
         Ok(Some(ZipFileReader(Reading(reader.into_with_entry_owned(entry), data_descriptor))))
     }
@@ -153,8 +172,8 @@ where
         let mut inner = self.0 .0.into_inner();
 
         // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
+        if let Some(descriptor) = self.0 .1 {
+            consume_data_descriptor(&mut inner, descriptor).await?;
         }
 
         Ok(ZipFileReader(Ready(inner)))
@@ -166,20 +185,26 @@ where
         let mut inner = self.0 .0.into_inner();
 
         // Has data descriptor.
-        if self.0 .1 {
-            consume_data_descriptor(&mut inner).await?;
+        if let Some(descriptor) = self.0 .1 {
+            consume_data_descriptor(&mut inner, descriptor).await?;
         }
 
         Ok(ZipFileReader(Ready(inner)))
     }
 }
 
-async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R) -> Result<()> {
+async fn consume_data_descriptor<R: AsyncBufRead + Unpin>(reader: &mut R, form: DataDescriptor) -> Result<()> {
     let mut descriptor: [u8; DATA_DESCRIPTOR_LENGTH] = [0; DATA_DESCRIPTOR_LENGTH];
     reader.read_exact(&mut descriptor).await?;
 
     if descriptor[0..SIGNATURE_LENGTH] == DATA_DESCRIPTOR_SIGNATURE.to_le_bytes() {
-        let mut tail: [u8; SIGNATURE_LENGTH] = [0; SIGNATURE_LENGTH];
+        descriptor.rotate_left(SIGNATURE_LENGTH);
+        reader.read_exact(&mut descriptor[DATA_DESCRIPTOR_LENGTH - SIGNATURE_LENGTH..]).await?;
+    }
+
+    // Previous versions of this crate wrote two 4-byte sentinels in place of the 8-byte sizes.
+    if matches!(form, DataDescriptor::Zip64) && descriptor[SIGNATURE_LENGTH..] != [0xFF; 8] {
+        let mut tail: [u8; 8] = [0; 8];
         reader.read_exact(&mut tail).await?;
     }
 
-- 
2.43.0


From 6669a85a1a029f29eb35e510f749b8417dec2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:20 +0000
Subject: [PATCH 18/24] fix: write 8-byte sizes in the data descriptor of
 streamed ZIP64 entries

---
 src/base/write/entry_stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 1c51a20..643a050 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -249,8 +249,14 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
 
         inner_writer.write_all(&crate::spec::consts::DATA_DESCRIPTOR_SIGNATURE.to_le_bytes()).await?;
         inner_writer.write_all(&self.entry.crc32.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
-        inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        if self.force_no_zip64 {
+            inner_writer.write_all(&cdr_compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&cdr_uncompressed_size.to_le_bytes()).await?;
+        } else {
+            // The sizes must be 8 bytes long as the local file header has a zip64 field.
+            inner_writer.write_all(&compressed_size.to_le_bytes()).await?;
+            inner_writer.write_all(&self.entry.uncompressed_size.to_le_bytes()).await?;
+        }
 
         let comment_basic = self.entry.comment().alternative().unwrap_or_else(|| self.entry.comment().as_bytes());
 
-- 
2.43.0


From a8d7aaad6b01fc03da8eb9ab82a2cc0595eabe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:31 +0000
Subject: [PATCH 19/24] fix: don't write leftover CRC and sizes to the local
 header of streamed entries

---
 src/base/write/entry_stream.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 643a050..21afe53 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -116,20 +116,15 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             }
             entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(Zip64ExtendedInformationExtraField {
                 header_id: HeaderId::ZIP64_EXTENDED_INFORMATION_EXTRA_FIELD,
-                uncompressed_size: Some(entry.uncompressed_size),
-                compressed_size: Some(entry.compressed_size),
+                uncompressed_size: Some(0),
+                compressed_size: Some(0),
                 relative_header_offset: None,
                 disk_start_number: None,
             }));
 
             (NON_ZIP64_MAX_SIZE, NON_ZIP64_MAX_SIZE)
         } else {
-            if entry.compressed_size > NON_ZIP64_MAX_SIZE as u64 || entry.uncompressed_size > NON_ZIP64_MAX_SIZE as u64
-            {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
-            }
-
-            (entry.compressed_size as u32, entry.uncompressed_size as u32)
+            (0, 0)
         };
 
         let utf8_without_alternative =
@@ -167,7 +162,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             compressed_size: lfh_compressed,
             uncompressed_size: lfh_uncompressed,
             compression: entry.compression().into(),
-            crc: entry.crc32,
+            // The CRC and sizes follow within the data descriptor; whatever the entry holds may be from another archive.
+            crc: 0,
             extra_field_length: entry
                 .extra_fields()
                 .count_bytes()
-- 
2.43.0


From 178dc344f213ccd3c3025e34f0d28f5a99964174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:42 +0000
Subject: [PATCH 20/24] fix: don't write an offset to the ZIP64 field of local
 file headers

---
 src/base/write/entry_whole.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index e271752..9e466a6 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -3,6 +3,7 @@
 
 use std::borrow::Cow;
 
+use crate::base::read::get_zip64_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::{CentralDirectoryEntry, ZipFileWriter};
@@ -168,9 +169,13 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         self.lh_offset = self.writer.writer.offset();
         self.enforce_zip64_offset()?;
 
+        let mut zip64_offset = None;
         if let Some(builder) = self.builder {
             if !builder.eof_only() {
-                self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder.build()?));
+                // There's no offset within a local file header; it's added to the central directory's field below.
+                let mut zip64_field = builder.build()?;
+                zip64_offset = zip64_field.relative_header_offset.take();
+                self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(zip64_field));
                 self.builder = None;
             } else {
                 self.builder = Some(builder);
@@ -232,6 +237,10 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder1.build()?));
             header.extra_field_length =
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
+        } else if let Some(zip64_field) = get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
+            zip64_field.relative_header_offset = zip64_offset;
+            header.extra_field_length =
+                self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
 
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
-- 
2.43.0


From 5165ae877b9cbf6037061528b1fd839e93a3b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:24 +0000
Subject: [PATCH 21/24] fix: don't carry over Info-ZIP Unicode fields which
 don't describe the entry written

---
 src/base/write/entry_stream.rs |  1 +
 src/base/write/entry_whole.rs  |  1 +
 src/base/write/mod.rs          | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 21afe53..44ee735 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -107,6 +107,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
         // A zip64 extended field carried over from another archive doesn't describe this entry.
         entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+        super::remove_info_zip_unicode_extra_fields(&mut entry.extra_fields);
 
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 9e466a6..afb300c 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -155,6 +155,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
 
         // A zip64 extended field carried over from another archive doesn't describe this entry.
         self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+        super::remove_info_zip_unicode_extra_fields(&mut self.entry.extra_fields);
 
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 4bc4447..fc89d73 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -297,6 +297,18 @@ where
     }
 }
 
+/// Removes the Info-ZIP Unicode fields carried over from another archive, as they may not describe the filename and comment
+/// which are about to be written. Those needed for that are put back afterwards.
+pub(crate) fn remove_info_zip_unicode_extra_fields(extra_fields: &mut Vec<ExtraField>) {
+    extra_fields.retain(|field| {
+        !matches!(
+            field,
+            ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })
+                | ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })
+        )
+    });
+}
+
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-- 
2.43.0


From 0fa773e90f2dd727f6f9c7cddef9dc5f958966e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:39 +0000
Subject: [PATCH 22/24] fix: don't take a locator look-alike for one whose
 record wouldn't fit before it

---
 src/base/read/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 21b3248..4c80693 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -39,6 +39,9 @@ use crate::spec::parse::parse_extra_fields;
 
 use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, SeekFrom};
 
+/// The length of a Zip64 EOCDR without extensible data, including its signature.
+const ZIP64_EOCDR_LENGTH: u64 = 56;
+
 pub(crate) async fn file<R>(mut reader: R) -> Result<ZipFile>
 where
     R: AsyncRead + AsyncSeek + Unpin,
@@ -65,7 +68,9 @@ where
             match zip64_locator {
                 // The Zip64 EOCDR must precede its locator. What doesn't point to one merely looks like a locator, eg. as
                 // the end of an entry's comment might.
-                Some(locator) if locator.relative_offset < offset => {
+                Some(locator)
+                    if offset.checked_sub(ZIP64_EOCDR_LENGTH).is_some_and(|o| locator.relative_offset <= o) =>
+                {
                     reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
                     match crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await {
                         Err(ZipError::UnexpectedHeaderError(..)) if !needs_zip64 => {
-- 
2.43.0


From ebcf4f2540fe9732839238deeed82595c71e25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:16 +0000
Subject: [PATCH 23/24] fix: write the Info-ZIP Unicode field for empty text
 which has an alternative

---
 src/base/write/entry_stream.rs | 4 ++--
 src/base/write/entry_whole.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 44ee735..a5a12e9 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -133,7 +133,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         if !utf8_without_alternative {
             if matches!(entry.filename().encoding(), StringEncoding::Utf8) {
                 let u_file_name = entry.filename().as_bytes().to_vec();
-                if !u_file_name.is_empty() {
+                if !u_file_name.is_empty() || entry.filename().alternative().is_some() {
                     let basic_crc32 =
                         crc32fast::hash(entry.filename().alternative().unwrap_or_else(|| entry.filename().as_bytes()));
                     let upath_field = get_or_put_info_zip_unicode_path_extra_field_mut(entry.extra_fields.as_mut());
@@ -145,7 +145,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             }
             if matches!(entry.comment().encoding(), StringEncoding::Utf8) {
                 let u_comment = entry.comment().as_bytes().to_vec();
-                if !u_comment.is_empty() {
+                if !u_comment.is_empty() || entry.comment().alternative().is_some() {
                     let basic_crc32 =
                         crc32fast::hash(entry.comment().alternative().unwrap_or_else(|| entry.comment().as_bytes()));
                     let ucom_field = get_or_put_info_zip_unicode_comment_extra_field_mut(entry.extra_fields.as_mut());
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index afb300c..12305ef 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -116,7 +116,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         if !utf8_without_alternative {
             if matches!(self.entry.filename().encoding(), StringEncoding::Utf8) {
                 let u_file_name = self.entry.filename().as_bytes().to_vec();
-                if !u_file_name.is_empty() {
+                if !u_file_name.is_empty() || self.entry.filename().alternative().is_some() {
                     let basic_crc32 = crc32fast::hash(
                         self.entry.filename().alternative().unwrap_or_else(|| self.entry.filename().as_bytes()),
                     );
@@ -130,7 +130,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             }
             if matches!(self.entry.comment().encoding(), StringEncoding::Utf8) {
                 let u_comment = self.entry.comment().as_bytes().to_vec();
-                if !u_comment.is_empty() {
+                if !u_comment.is_empty() || self.entry.comment().alternative().is_some() {
                     let basic_crc32 = crc32fast::hash(
                         self.entry.comment().alternative().unwrap_or_else(|| self.entry.comment().as_bytes()),
                     );
-- 
2.43.0


From 0c3f4af3ff80674c6f478f231bb839ea503cba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:04 +0000
Subject: [PATCH 24/24] fix: report stored data which ends early instead of
 taking it for complete

Stored data carries no end marker, so a source that ended before the entry's
size was reached looked like the normal end of the entry; even a checked read
accepted it if the CRC32 values happened to match (eg. both zero).
---
 src/base/read/io/entry.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index a0395a9..81677a9 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -1,13 +1,13 @@
 // Copyright (c) 2022 Harry [Majored] [hello@majored.pw]
 // MIT License (https://github.com/Majored/rs-async-zip/blob/main/LICENSE)
 
-use crate::base::read::io::{compressed::CompressedReader, hashed::HashedReader, owned::OwnedReader};
+use crate::base::read::io::{compressed::CompressedReader, hashed::HashedReader, owned::OwnedReader, poll_result_ok};
 use crate::entry::ZipEntry;
 use crate::error::{Result, ZipError};
 use crate::spec::Compression;
 
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 
 use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, Take};
 use pin_project::pin_project;
@@ -56,7 +56,17 @@ where
     R: AsyncBufRead + Unpin,
 {
     fn poll_read(self: Pin<&mut Self>, c: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
-        self.project().reader.poll_read(c, b)
+        let mut project = self.project();
+        let read = poll_result_ok!(ready!(project.reader.as_mut().poll_read(c, b)));
+
+        // Stored data carries no end marker of its own, so only its size tells whether the source has ended early.
+        if let (0, false, CompressedReader::Stored(inner)) = (read, b.is_empty(), &project.reader.reader) {
+            if inner.limit() != 0 {
+                return Poll::Ready(Err(std::io::ErrorKind::UnexpectedEof.into()));
+            }
+        }
+
+        Poll::Ready(Ok(read))
     }
 }
 
-- 
2.43.0

