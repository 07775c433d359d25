From 54e55a2753021e8a7232e67cb35e54ca2f058660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 01/16] fix: record streamed entry sizes in the right order
 when ZIP64 is disabled

With force_no_zip64 the compressed and uncompressed sizes of a streamed entry
were swapped in the data descriptor and the central directory record.
---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 902a8c97582092a28a8fe6282e71dde770ced6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 02/16] fix: refuse an archive comment longer than the format
 can hold

---
 src/base/write/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..95962d4 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -187,6 +187,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let file_comm_length = match &self.comment_opt {
+            Some(comment) => comment.len().try_into().map_err(|_| ZipError::CommentTooLarge)?,
+            None => 0,
+        };
+
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -258,7 +263,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 75ea9fee5732f7a27addb193c9978cd3ca649f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 03/16] fix: report end of file instead of returning truncated
 names, extra fields and comments

---
 src/base/read/io/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..839e988 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -22,12 +22,12 @@ where
 }
 
 /// Read and return a dynamic length vector of bytes from a reader which impls AsyncRead.
-pub(crate) async fn read_bytes<R>(reader: R, length: usize) -> std::io::Result<Vec<u8>>
+pub(crate) async fn read_bytes<R>(mut reader: R, length: usize) -> std::io::Result<Vec<u8>>
 where
     R: AsyncRead + Unpin,
 {
-    let mut buffer = Vec::with_capacity(length);
-    reader.take(length as u64).read_to_end(&mut buffer).await?;
+    let mut buffer = vec![0; length];
+    reader.read_exact(&mut buffer).await?;
 
     Ok(buffer)
 }
-- 
2.43.0


From f09e002571bda372c0c6944b04e1f5e25f37fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:42 +0000
Subject: [PATCH 04/16] fix: refuse an extra field longer than its area instead
 of underflowing

parse_extra_fields() computes the size for its error with a subtraction that
always underflows when the error is reached, which panics with overflow checks
enabled. Check the lengths before parsing.
---
 src/base/read/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..dd767a0 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -116,6 +116,20 @@ pub(crate) fn get_zip64_extra_field_mut(
     None
 }
 
+/// Parses an extra field area, refusing any field which claims more data than the area still holds.
+fn checked_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+    let mut remaining = data.as_slice();
+    while remaining.len() > 4 {
+        let field_size = u16::from_le_bytes([remaining[2], remaining[3]]);
+        let contents = &remaining[4..];
+        remaining = contents
+            .get(field_size as usize..)
+            .ok_or(ZipError::InvalidExtraFieldHeader(field_size, contents.len()))?;
+    }
+
+    parse_extra_fields(data, uncompressed_size, compressed_size)
+}
+
 fn get_combined_sizes(
     uncompressed_size: u32,
     compressed_size: u32,
@@ -148,7 +162,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = checked_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
     let comment_basic = io::read_bytes(reader, header.file_comment_length.into()).await?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
@@ -214,7 +228,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
-    let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
+    let extra_fields = checked_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
     let (uncompressed_size, compressed_size) =
-- 
2.43.0


From 31176a7be935ba73347ab503e2e18e8713709261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:54 +0000
Subject: [PATCH 05/16] fix: stream reader reports the end of an archive
 without entries instead of failing

---
 src/base/read/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index dd767a0..79573ed 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,10 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -221,6 +224,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // An archive without entries has no central directory headers, only the end records.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 5b31c603a8e85e8b7e40d0dec5aca6a42ef61f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:16 +0000
Subject: [PATCH 06/16] fix: don't allocate the directory listing from an
 unverified entry count

---
 src/base/read/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 79573ed..b597bab 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -88,8 +88,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The count is unverified input, so don't allocate on its word alone.
+    let mut entries = Vec::new();
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From ce1ef6f52c3a6b49989a6bd36bee6b6287718381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/16] fix: refuse a ZIP64 locator whose offset overflows
 instead of wrapping around

---
 src/base/read/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index b597bab..c2d0049 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -61,7 +61,11 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    let zip64_eocdr_offset = locator
+                        .relative_offset
+                        .checked_add(SIGNATURE_LENGTH as u64)
+                        .ok_or(ZipError::UnableToLocateEOCDR)?;
+                    reader.seek(SeekFrom::Start(zip64_eocdr_offset)).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From fe7faafe379df44d46526621753ba64e647430a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:17 +0000
Subject: [PATCH 08/16] fix: find the end of central directory record when the
 archive comment contains its signature

---
 src/base/read/io/locator.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/base/read/io/locator.rs b/src/base/read/io/locator.rs
index 5e7c0ad..01eb5af 100644
--- a/src/base/read/io/locator.rs
+++ b/src/base/read/io/locator.rs
@@ -54,6 +54,9 @@ where
     let mut position = length.saturating_sub(BUFFER_SIZE as u64);
     reader.seek(SeekFrom::Start(position)).await?;
 
+    // The last signature within the data, used if no record's comment ends exactly where the data does.
+    let mut fallback = None;
+
     loop {
         let mut read = 0;
 
@@ -66,19 +69,33 @@ where
             read += bytes_read;
         }
 
-        if let Some(match_index) = reverse_search_buffer(&buffer[..read], signature) {
-            return Ok(position + (match_index + 1) as u64);
+        // The file comment may itself contain the signature, so a match is only taken to be the EOCDR if its comment
+        // reaches exactly to the end of the data. Otherwise, we continue with any earlier match.
+        let mut searched = read;
+        while let Some(match_index) = reverse_search_buffer(&buffer[..searched], signature) {
+            let offset = position + (match_index + 1) as u64;
+            fallback.get_or_insert(offset);
+
+            let record = &buffer[match_index + 1..read];
+            if let Some(comment_length) = record.get(EOCDR_LENGTH - 2..EOCDR_LENGTH) {
+                let comment_length = u16::from_le_bytes([comment_length[0], comment_length[1]]);
+                if offset + EOCDR_LENGTH as u64 + comment_length as u64 == length {
+                    return Ok(offset);
+                }
+            }
+
+            searched = match_index;
         }
 
-        // If we hit the start of the data or the lower bound, we're unable to locate the EOCDR.
+        // If we hit the start of the data or the lower bound, no (other) EOCDR can be located.
         if position == 0 || position <= length.saturating_sub(EOCDR_LOWER_BOUND) {
-            return Err(ZipError::UnableToLocateEOCDR);
+            return fallback.ok_or(ZipError::UnableToLocateEOCDR);
         }
 
-        // To handle the case where the EOCDR signature crosses buffer boundaries, we simply overlap reads by the
-        // signature length. This significantly reduces the complexity of handling partial matches with very little
-        // overhead.
-        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH) as u64);
+        // To handle the case where the EOCDR crosses buffer boundaries, we simply overlap reads by the length of the
+        // record (including its signature). This significantly reduces the complexity of handling partial matches with
+        // very little overhead.
+        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH - EOCDR_LENGTH) as u64);
         reader.seek(SeekFrom::Start(position)).await?;
     }
 }
-- 
2.43.0


From 3b7d91c72e370f0d8b0747819e1a398ee3b9c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 09/16] fix: don't carry the zip64 field of a copied entry over
 into the new archive

---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..b738c7e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // A zip64 field describes the archive it was read from, so it's never carried over from a copied entry.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..09b000c 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // A zip64 field describes the archive it was read from, so it's never carried over from a copied entry.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From 94ae535c627786e5302eb2f96d143a2234f4fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 10/16] fix: write the unicode name and comment fields even if
 the entry has ones of another version

---
 src/base/write/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 95962d4..7f720a9 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -296,13 +296,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -313,13 +316,16 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    if !extra_fields
+        .iter()
+        .any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })))
+    {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From 4d0d044b5c3843609d26e00169bdfaf4be388765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:03 +0000
Subject: [PATCH 11/16] fix: give entries of exactly the largest 32-bit size or
 offset a zip64 field

The maximum value is the marker which sends readers to the zip64 field. Next to a
zip64 field written for another value it was read as that marker, and the sizes or
the offset of the entry came out wrong.
---
 src/base/write/entry_whole.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 09b000c..4cceae9 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -61,9 +61,21 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
     }
 
+    /// Whether a size or offset can't be held by its 32-bit field.
+    ///
+    /// The maximum value tells readers to look for the actual one in the zip64 field, so it's only written as a value
+    /// of its own where there's never such a field.
+    fn needs_zip64_field(&self, value: u64) -> bool {
+        if self.writer.force_no_zip64 {
+            value > NON_ZIP64_MAX_SIZE.into()
+        } else {
+            value >= NON_ZIP64_MAX_SIZE.into()
+        }
+    }
+
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        let uncompressed_larger = self.needs_zip64_field(self.entry.uncompressed_size);
+        let compressed_larger = self.needs_zip64_field(self.entry.compressed_size);
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
@@ -83,7 +95,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        if !self.needs_zip64_field(self.lh_offset) {
             return Ok(());
         }
 
-- 
2.43.0


From 7374dd8486c951e8e004ee9361359ebf9fc33586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:20 +0000
Subject: [PATCH 12/16] fix: don't list an entry refused for exceeding the
 number of files

Without ZIP64 the entry past the limit was added to the directory before it was
refused, so closing the archive wrote a directory its end record couldn't describe.
---
 src/base/write/entry_stream.rs | 15 +++++++--------
 src/base/write/entry_whole.rs  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index b738c7e..99b9661 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -273,15 +273,14 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !*self.is_zip64 {
-                *self.is_zip64 = true;
-            }
+        if self.force_no_zip64 && self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
+        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !*self.is_zip64 {
+            *self.is_zip64 = true;
         }
 
         Ok(())
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 4cceae9..9a3dcb7 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -159,6 +159,11 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // Ensure that we can fit this many files in this archive if forcing no zip64
+        if self.writer.force_no_zip64 && self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         // A zip64 field describes the archive it was read from, so it's never carried over from a copied entry.
         self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
 
@@ -242,14 +247,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
 
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.writer.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !self.writer.is_zip64 {
-                self.writer.is_zip64 = true;
-            }
+        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !self.writer.is_zip64 {
+            self.writer.is_zip64 = true;
         }
         Ok(())
     }
-- 
2.43.0


From 0f44feecdf5a53cd9a8d9bfac59c42d1b068f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 13/16] fix: setting a field of a date that already has one
 combined the two values

---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..9768045 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From cbf4bfb51cc18dfa1f4bde9c8e2eda273941b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:22 +0000
Subject: [PATCH 14/16] fix: write ZIP64 end records, or refuse, for a
 directory larger than 32-bit sizes

---
 src/base/write/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 7f720a9..67612b8 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -208,6 +208,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From e49dfbc928f1f19d939f04c5ed4f239733e0a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 15/16] fix: refuse a ZIP64 locator that doesn't lead to a
 ZIP64 end of central directory record

---
 src/base/read/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index c2d0049..9b73d20 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -61,11 +61,8 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    let zip64_eocdr_offset = locator
-                        .relative_offset
-                        .checked_add(SIGNATURE_LENGTH as u64)
-                        .ok_or(ZipError::UnableToLocateEOCDR)?;
-                    reader.seek(SeekFrom::Start(zip64_eocdr_offset)).await?;
+                    reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
+                    crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From b01c9fcfdc074a7a45b6e5af6955d17d3d508ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 16/16] fix: keep the streaming reader in sync when an entry's
 compressed stream ends before its recorded size

---
 src/base/read/io/entry.rs | 8 ++++++++
 src/base/read/stream.rs   | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/base/read/io/entry.rs b/src/base/read/io/entry.rs
index a0395a9..07a7a4b 100644
--- a/src/base/read/io/entry.rs
+++ b/src/base/read/io/entry.rs
@@ -75,6 +75,14 @@ where
     pub(crate) fn into_inner(self) -> R {
         self.reader.into_inner().into_inner().into_inner().owned_into_inner()
     }
+
+    /// Consumes this reader, along with any data its decompression left unread, and returns the inner value.
+    pub(crate) async fn exhaust_into_inner(self) -> Result<R> {
+        let mut remaining = self.reader.into_inner().into_inner();
+        while remaining.read(&mut [0; 2048]).await? != 0 {}
+
+        Ok(remaining.into_inner().owned_into_inner())
+    }
 }
 
 impl<R> ZipEntryReader<'_, R, WithEntry<'_>>
diff --git a/src/base/read/stream.rs b/src/base/read/stream.rs
index b4691c3..57b0f2a 100644
--- a/src/base/read/stream.rs
+++ b/src/base/read/stream.rs
@@ -150,7 +150,8 @@ where
             return Err(ZipError::EOFNotReached);
         }
 
-        let mut inner = self.0 .0.into_inner();
+        // Without a data descriptor, the recorded size says where the data ends and not the compressed stream.
+        let mut inner = if self.0 .1 { self.0 .0.into_inner() } else { self.0 .0.exhaust_into_inner().await? };
 
         // Has data descriptor.
         if self.0 .1 {
@@ -163,7 +164,8 @@ where
     /// Reads until EOF and converts the reader back into the Ready state.
     pub async fn skip(mut self) -> Result<ZipFileReader<Ready<R>>> {
         while self.0 .0.read(&mut [0; 2048]).await? != 0 {}
-        let mut inner = self.0 .0.into_inner();
+        // Without a data descriptor, the recorded size says where the data ends and not the compressed stream.
+        let mut inner = if self.0 .1 { self.0 .0.into_inner() } else { self.0 .0.exhaust_into_inner().await? };
 
         // Has data descriptor.
         if self.0 .1 {
-- 
2.43.0

