From f727a85a0e611b945ff729199910f3778acb2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 01/20] fix: write stream entry sizes in the right order when
 ZIP64 is forbidden

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 202ac410302d08e6bae59438f7df723a4aeb6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 02/20] fix: compress() returns stored data unchanged instead
 of panicking

---
 src/base/write/entry_whole.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..e88246b 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -255,6 +255,7 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
     let level = entry.compression_level;
 
     match entry.compression() {
+        Compression::Stored => data.to_vec(),
         #[cfg(feature = "deflate")]
         Compression::Deflate => {
             let mut writer = write::DeflateEncoder::with_quality(Cursor::new(Vec::new()), level);
@@ -292,7 +293,6 @@ pub async fn compress(entry: &ZipEntry, data: &[u8]) -> Vec<u8> {
             writer.close().await.unwrap();
             writer.into_inner().into_inner()
         }
-        _ => unreachable!(),
     }
 }
 
-- 
2.43.0


From cc1896e39ef369789536255e1e1ed87bb0e785d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:54 +0000
Subject: [PATCH 03/20] fix: streaming an archive without entries ends cleanly

---
 src/base/read/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..8aa66a6 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -21,7 +21,10 @@ use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
 use crate::spec::consts::LFH_LENGTH;
-use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
+use crate::spec::consts::{
+    CDH_SIGNATURE, EOCDR_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH,
+    ZIP64_EOCDR_SIGNATURE,
+};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
 use crate::spec::header::{
@@ -207,6 +210,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // An archive without entries has no central directory headers either.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 1537a8bf099fdfdeb26973e857d148a97207b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:21 +0000
Subject: [PATCH 04/20] fix: report an error when a name, comment or extra
 field is cut short by the end of the source

---
 src/base/read/io/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..06729e2 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -29,6 +29,10 @@ where
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
 
+    if buffer.len() != length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+
     Ok(buffer)
 }
 
-- 
2.43.0


From 0f1e81b88600a6205fcee313682be577076e69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 05/20] fix: an extra field that claims more data than there is
 no longer underflows

---
 src/spec/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index 422d468..d5fb95f 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 90d4975972a35f0c06fb0fd522cf32a840f08383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 06/20] fix: a ZIP64 locator with an offset near the 64-bit
 limit no longer overflows

---
 src/base/read/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 8aa66a6..8d3e99f 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -61,7 +61,11 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    let zip64_eocdr_offset = locator
+                        .relative_offset
+                        .checked_add(SIGNATURE_LENGTH as u64)
+                        .ok_or(ZipError::UnableToLocateEOCDR)?;
+                    reader.seek(SeekFrom::Start(zip64_eocdr_offset)).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From 42ff6fab1fa972c81be2055f1b6fa5f3079aabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 07/20] fix: an untrustworthy entry count no longer decides how
 much memory is reserved

---
 src/base/read/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 8d3e99f..cae433c 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -92,8 +92,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The number of entries is not trustworthy, so don't let it decide alone how much memory is reserved.
+    let mut entries = Vec::with_capacity(num_of_entries.min(1024));
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From bce37f5c3cd39e9d49fb935403f0c9fcec4486ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 08/20] fix: a size or offset equal to the ZIP64 marker value
 is repeated in the ZIP64 field

---
 src/base/write/entry_whole.rs | 15 +++++++++++++--
 src/spec/extra_field.rs       |  4 ++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index e88246b..be1a6ac 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -83,13 +83,24 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        // An offset that happens to equal the marker value only needs to be repeated if there is a ZIP64 field.
+        let offset_is_marker = self.lh_offset == NON_ZIP64_MAX_SIZE.into() && self.builder.is_some();
+        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() && !offset_is_marker {
             return Ok(());
         }
 
         self.enforce_zip64()?;
 
-        let builder = self.builder.take().unwrap_or(Zip64ExtendedInformationExtraFieldBuilder::new());
+        let mut builder = self.builder.take().unwrap_or(Zip64ExtendedInformationExtraFieldBuilder::new());
+        if builder.is_empty()
+            && (self.entry.uncompressed_size == NON_ZIP64_MAX_SIZE.into()
+                || self.entry.compressed_size == NON_ZIP64_MAX_SIZE.into())
+        {
+            // A size that happens to equal the marker value would be looked up in the ZIP64 field as well.
+            builder = builder.sizes(self.entry.compressed_size(), self.entry.uncompressed_size());
+            self.entry.uncompressed_size = NON_ZIP64_MAX_SIZE.into();
+            self.entry.compressed_size = NON_ZIP64_MAX_SIZE.into();
+        }
         let builder = builder.relative_header_offset(self.lh_offset);
         self.builder = Some(builder);
 
diff --git a/src/spec/extra_field.rs b/src/spec/extra_field.rs
index 7506e95..94da732 100644
--- a/src/spec/extra_field.rs
+++ b/src/spec/extra_field.rs
@@ -304,6 +304,10 @@ impl Zip64ExtendedInformationExtraFieldBuilder {
         self
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.field.content_size() == 0
+    }
+
     pub fn eof_only(&self) -> bool {
         (self.field.uncompressed_size.is_none() && self.field.compressed_size.is_none())
             && (self.field.relative_header_offset.is_some() || self.field.disk_start_number.is_some())
-- 
2.43.0


From fa070e21acc3431ed779dc7de8ebc19525d618c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:45 +0000
Subject: [PATCH 09/20] fix: an entry refused because of the entry count is not
 added to the central directory

---
 src/base/write/entry_stream.rs | 15 +++++++--------
 src/base/write/entry_whole.rs  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..f42fcbb 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -199,6 +199,11 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<()> {
+        // Ensure that we can fit this many files in this archive if forcing no zip64
+        if self.force_no_zip64 && self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         self.writer.close().await?;
 
         if !self.precompressed {
@@ -271,14 +276,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
         };
 
         self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !*self.is_zip64 {
-                *self.is_zip64 = true;
-            }
+        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !*self.is_zip64 {
+            *self.is_zip64 = true;
         }
 
         Ok(())
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index be1a6ac..9d0f3a0 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -158,6 +158,11 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // Ensure that we can fit this many files in this archive if forcing no zip64
+        if self.writer.force_no_zip64 && self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
+            return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
+        }
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
@@ -238,14 +243,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
         }
 
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
-        // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
-            if self.writer.force_no_zip64 {
-                return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
-            }
-            if !self.writer.is_zip64 {
-                self.writer.is_zip64 = true;
-            }
+        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !self.writer.is_zip64 {
+            self.writer.is_zip64 = true;
         }
         Ok(())
     }
-- 
2.43.0


From f2937fdd40a053f30a2f4fef0806abafc88edc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:45 +0000
Subject: [PATCH 10/20] fix: a central directory larger than 4 GiB uses ZIP64
 or is refused

---
 src/base/write/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..4dfac51 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -203,6 +203,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            } else {
+                self.is_zip64 = true;
+            }
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From 83baffaf879ab6486222aff137de9f1cec4bff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:19 +0000
Subject: [PATCH 11/20] fix: setting a part of a date again replaces it instead
 of mixing old and new bits

---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..9768045 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From c0bb77e903fa2331b2967bd83f7d39a1a066c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 12/20] fix: a ZIP64 field of a copied entry is replaced
 instead of kept or repeated

---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index f42fcbb..165e72e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // A ZIP64 field of an entry read from another archive describes sizes and an offset in that archive.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 9d0f3a0..941a159 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -163,6 +163,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
         }
 
+        // A ZIP64 field of an entry read from another archive describes sizes and an offset in that archive.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From 7eefc9054f76a59d9bd4a0b03f22a0611a471c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:36 +0000
Subject: [PATCH 13/20] fix: a Unicode field of an unknown version no longer
 swallows the text of a copied entry

---
 src/base/write/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 4dfac51..ea4291a 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -296,13 +296,16 @@ where
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodePath(_))) {
+    // A field of an unknown version cannot take the text.
+    let is_v1 =
+        |field: &ExtraField| matches!(field, ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. }));
+    if !extra_fields.iter().any(is_v1) {
         extra_fields
             .push(ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodePath(extra_field) = field {
+        if let ExtraField::InfoZipUnicodePath(extra_field @ InfoZipUnicodePathExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
@@ -313,13 +316,17 @@ pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
 pub(crate) fn get_or_put_info_zip_unicode_comment_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodeCommentExtraField {
-    if !extra_fields.iter().any(|field| matches!(field, ExtraField::InfoZipUnicodeComment(_))) {
+    // A field of an unknown version cannot take the text.
+    let is_v1 = |field: &ExtraField| {
+        matches!(field, ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. }))
+    };
+    if !extra_fields.iter().any(is_v1) {
         extra_fields
             .push(ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { crc32: 0, unicode: vec![] }));
     }
 
     for field in extra_fields.iter_mut() {
-        if let ExtraField::InfoZipUnicodeComment(extra_field) = field {
+        if let ExtraField::InfoZipUnicodeComment(extra_field @ InfoZipUnicodeCommentExtraField::V1 { .. }) = field {
             return extra_field;
         }
     }
-- 
2.43.0


From c84458c1acbae51f225307957639bed4bfceadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:46 +0000
Subject: [PATCH 14/20] fix: Unicode fields of a copied entry no longer
 override its changed name or comment

---
 src/base/write/entry_stream.rs |  4 ++--
 src/base/write/entry_whole.rs  |  4 ++--
 src/base/write/mod.rs          | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 165e72e..840dd8b 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -5,6 +5,7 @@ use crate::base::write::compressed_writer::CompressedAsyncWriter;
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
 use crate::base::write::io::offset::AsyncOffsetWriter;
+use crate::base::write::remove_derived_extra_fields;
 use crate::base::write::CentralDirectoryEntry;
 use crate::base::write::ZipFileWriter;
 use crate::entry::ZipEntry;
@@ -105,8 +106,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
-        // A ZIP64 field of an entry read from another archive describes sizes and an offset in that archive.
-        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+        remove_derived_extra_fields(&mut entry.extra_fields);
 
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 941a159..3d267c1 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -5,6 +5,7 @@ use std::borrow::Cow;
 
 use crate::base::write::get_or_put_info_zip_unicode_comment_extra_field_mut;
 use crate::base::write::get_or_put_info_zip_unicode_path_extra_field_mut;
+use crate::base::write::remove_derived_extra_fields;
 use crate::base::write::{CentralDirectoryEntry, ZipFileWriter};
 use crate::entry::ZipEntry;
 use crate::error::{Result, Zip64ErrorCase, ZipError};
@@ -163,8 +164,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
         }
 
-        // A ZIP64 field of an entry read from another archive describes sizes and an offset in that archive.
-        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+        remove_derived_extra_fields(&mut self.entry.extra_fields);
 
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index ea4291a..08f9862 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -293,6 +293,19 @@ where
     }
 }
 
+/// Removes the extra fields that an entry read from another archive has from there and that the writers derive again
+/// from the entry: the ZIP64 field, and the Unicode fields, which could otherwise override a changed name or comment.
+pub(crate) fn remove_derived_extra_fields(extra_fields: &mut Vec<ExtraField>) {
+    extra_fields.retain(|field| {
+        !matches!(
+            field,
+            ExtraField::Zip64ExtendedInformation(_)
+                | ExtraField::InfoZipUnicodePath(InfoZipUnicodePathExtraField::V1 { .. })
+                | ExtraField::InfoZipUnicodeComment(InfoZipUnicodeCommentExtraField::V1 { .. })
+        )
+    });
+}
+
 pub(crate) fn get_or_put_info_zip_unicode_path_extra_field_mut(
     extra_fields: &mut Vec<ExtraField>,
 ) -> &mut InfoZipUnicodePathExtraField {
-- 
2.43.0


From 0de25dc8d308e3f3befff6cf06ffbb7c1631cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 15/20] fix: an archive comment longer than its length field is
 refused instead of truncated in length

---
 src/base/write/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index 08f9862..c8d7f70 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -71,7 +71,7 @@ pub use entry_whole::crc32;
 use tokio_util::compat::{Compat, TokioAsyncWriteCompatExt};
 
 use crate::entry::ZipEntry;
-use crate::error::Result;
+use crate::error::{Result, ZipError};
 use crate::spec::extra_field::ExtraFieldAsBytes;
 use crate::spec::header::{
     CentralDirectoryRecord, EndOfCentralDirectoryHeader, ExtraField, InfoZipUnicodeCommentExtraField,
@@ -187,6 +187,11 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
     ///
     /// Failure to call this function before going out of scope would result in a corrupted ZIP file.
     pub async fn close(mut self) -> Result<W> {
+        let file_comm_length = match &self.comment_opt {
+            Some(comment) => comment.len().try_into().map_err(|_| ZipError::CommentTooLarge)?,
+            None => 0,
+        };
+
         let cd_offset = self.writer.offset();
 
         for entry in &self.cd_entries {
@@ -263,7 +268,7 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From f04552f7ad0e5688c8c8b93694e2ba5ab78dc848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:10 +0000
Subject: [PATCH 16/20] fix: the seekable readers refuse encrypted entries
 instead of returning their encrypted data

---
 src/entry/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry/mod.rs b/src/entry/mod.rs
index a0bd841..a69d485 100644
--- a/src/entry/mod.rs
+++ b/src/entry/mod.rs
@@ -203,6 +203,9 @@ impl StoredZipEntry {
 
         // Skip the local file header and trailing data
         let header = LocalFileHeader::from_reader(&mut reader).await?;
+        if header.flags.encrypted {
+            return Err(ZipError::FeatureNotSupported("encryption"));
+        }
         let trailing_size = (header.file_name_length as i64) + (header.extra_field_length as i64);
         reader.seek(SeekFrom::Current(trailing_size)).await?;
 
-- 
2.43.0


From a13d550ad929e7c75317040e6bcb0bc7b43522e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:11 +0000
Subject: [PATCH 17/20] fix: check the lengths of extra fields where they are
 read, not in src/spec

---
 src/base/read/mod.rs | 14 +++++++++++++-
 src/spec/parse.rs    |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index cae433c..ae3ec8b 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -35,7 +35,6 @@ use crate::spec::Compression;
 use crate::string::StringEncoding;
 
 use crate::base::read::io::CombinedCentralDirectoryRecord;
-use crate::spec::parse::parse_extra_fields;
 
 use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, SeekFrom};
 
@@ -144,6 +143,19 @@ fn get_combined_sizes(
     Ok((uncompressed_size, compressed_size))
 }
 
+/// Parses extra fields after making sure that none of them claims more data than there is.
+fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size: u32) -> Result<Vec<ExtraField>> {
+    let mut rest = data.as_slice();
+    while rest.len() > 4 {
+        let field_size = u16::from_le_bytes([rest[2], rest[3]]);
+        let available = &rest[4..];
+        rest = available
+            .get(field_size as usize..)
+            .ok_or(ZipError::InvalidExtraFieldHeader(field_size, available.len()))?;
+    }
+    crate::spec::parse::parse_extra_fields(data, uncompressed_size, compressed_size)
+}
+
 pub(crate) async fn cd_record<R>(mut reader: R, _zip64: bool) -> Result<StoredZipEntry>
 where
     R: AsyncRead + Unpin,
diff --git a/src/spec/parse.rs b/src/spec/parse.rs
index d5fb95f..422d468 100644
--- a/src/spec/parse.rs
+++ b/src/spec/parse.rs
@@ -271,7 +271,7 @@ pub fn parse_extra_fields(data: Vec<u8>, uncompressed_size: u32, compressed_size
         let header_id: HeaderId = u16::from_le_bytes(data[cursor..cursor + 2].try_into().unwrap()).into();
         let field_size = u16::from_le_bytes(data[cursor + 2..cursor + 4].try_into().unwrap());
         if cursor + 4 + field_size as usize > data.len() {
-            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 4));
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, data.len() - cursor - 8 - field_size as usize));
         }
         let data = &data[cursor + 4..cursor + 4 + field_size as usize];
         extra_fields.push(extra_field_from_bytes(header_id, field_size, data, uncompressed_size, compressed_size)?);
-- 
2.43.0


From 46cbd1afeab0e49fa0f0b6ed0a6871b0090cfbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:11 +0000
Subject: [PATCH 18/20] fix: decide about repeated ZIP64 sizes without a new
 builder method in src/spec

---
 src/base/write/entry_whole.rs | 3 ++-
 src/spec/extra_field.rs       | 4 ----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 3d267c1..78174c1 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -92,8 +92,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
 
         self.enforce_zip64()?;
 
+        let has_sizes = self.builder.is_some();
         let mut builder = self.builder.take().unwrap_or(Zip64ExtendedInformationExtraFieldBuilder::new());
-        if builder.is_empty()
+        if !has_sizes
             && (self.entry.uncompressed_size == NON_ZIP64_MAX_SIZE.into()
                 || self.entry.compressed_size == NON_ZIP64_MAX_SIZE.into())
         {
diff --git a/src/spec/extra_field.rs b/src/spec/extra_field.rs
index 94da732..7506e95 100644
--- a/src/spec/extra_field.rs
+++ b/src/spec/extra_field.rs
@@ -304,10 +304,6 @@ impl Zip64ExtendedInformationExtraFieldBuilder {
         self
     }
 
-    pub fn is_empty(&self) -> bool {
-        self.field.content_size() == 0
-    }
-
     pub fn eof_only(&self) -> bool {
         (self.field.uncompressed_size.is_none() && self.field.compressed_size.is_none())
             && (self.field.relative_header_offset.is_some() || self.field.disk_start_number.is_some())
-- 
2.43.0


From ce6ccb3c1ce36fcb14edb3be6a6cd9b560aa51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:06 +0000
Subject: [PATCH 19/20] fix: refuse an entry that won't fit its central header
 before writing it

A streamed entry with an over-long comment, or with extra fields that leave no
room for the ZIP64 header offset, was only refused once its local header and
data were written, which left bytes in the archive that no header accounts for.
---
 src/base/write/entry_stream.rs |  7 +++++++
 src/base/write/entry_whole.rs  | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 840dd8b..5c5b366 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -184,6 +184,13 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             },
         };
 
+        // The central header gets the comment and, with ZIP64, an offset. Refuse now what won't fit then, as nothing
+        // can be taken back once it's written.
+        let comment_basic = entry.comment().alternative().unwrap_or_else(|| entry.comment().as_bytes());
+        u16::try_from(comment_basic.len()).map_err(|_| ZipError::CommentTooLarge)?;
+        let offset_length = if writer.force_no_zip64 { 0 } else { std::mem::size_of::<u64>() };
+        u16::try_from(entry.extra_fields().count_bytes() + offset_length).map_err(|_| ZipError::ExtraFieldTooLarge)?;
+
         writer.writer.write_all(&crate::spec::consts::LFH_SIGNATURE.to_le_bytes()).await?;
         writer.writer.write_all(&lfh.as_slice()).await?;
         writer.writer.write_all(filename_basic).await?;
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 78174c1..a380e81 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -234,18 +234,25 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
             lh_offset: self.lh_offset as u32,
         };
 
+        // An offset field is only part of the central header. Refuse now what won't fit there, as nothing can be taken
+        // back once it's written.
+        let offset_field = match self.builder.take() {
+            Some(builder) => {
+                let field = ExtraField::Zip64ExtendedInformation(builder.build()?);
+                let length = self.entry.extra_fields().count_bytes() + field.count_bytes();
+                header.extra_field_length = length.try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
+                Some(field)
+            }
+            None => None,
+        };
+
         self.writer.writer.write_all(&crate::spec::consts::LFH_SIGNATURE.to_le_bytes()).await?;
         self.writer.writer.write_all(&lf_header.as_slice()).await?;
         self.writer.writer.write_all(filename_basic).await?;
         self.writer.writer.write_all(&self.entry.extra_fields().as_bytes()).await?;
         self.writer.writer.write_all(&self.data).await?;
 
-        if let Some(builder1) = self.builder {
-            self.entry.extra_fields.push(ExtraField::Zip64ExtendedInformation(builder1.build()?));
-            header.extra_field_length =
-                self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
-        }
-
+        self.entry.extra_fields.extend(offset_field);
         self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize && !self.writer.is_zip64 {
             self.writer.is_zip64 = true;
-- 
2.43.0


From 91f0b2d2d9b0b87f00d4123ce6eb72208f334082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 20/20] fix: verify the signature of the ZIP64 end of central
 directory record

---
 src/base/read/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index ae3ec8b..ab1c6d2 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -60,11 +60,8 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    let zip64_eocdr_offset = locator
-                        .relative_offset
-                        .checked_add(SIGNATURE_LENGTH as u64)
-                        .ok_or(ZipError::UnableToLocateEOCDR)?;
-                    reader.seek(SeekFrom::Start(zip64_eocdr_offset)).await?;
+                    reader.seek(SeekFrom::Start(locator.relative_offset)).await?;
+                    crate::utils::assert_signature(&mut reader, ZIP64_EOCDR_SIGNATURE).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0

