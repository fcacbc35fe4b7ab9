From d4ddd5b0ed243168805d51c5dfc2440434e8c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 01/14] fix: do not overflow on a hostile ZIP64 locator offset

---
 src/base/read/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index e07cd16..6924d26 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -58,7 +58,7 @@ where
 
             match zip64_locator {
                 Some(locator) => {
-                    reader.seek(SeekFrom::Start(locator.relative_offset + SIGNATURE_LENGTH as u64)).await?;
+                    reader.seek(SeekFrom::Start(locator.relative_offset.saturating_add(SIGNATURE_LENGTH as u64))).await?;
                     let zip64_eocdr = Zip64EndOfCentralDirectoryRecord::from_reader(&mut reader).await?;
                     (CombinedCentralDirectoryRecord::combine(eocdr, zip64_eocdr), true)
                 }
-- 
2.43.0


From 547767347aff93c2c6169b44bde709ee1d6050c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 02/14] fix: do not allocate for an untrusted entry count up
 front

A ZIP64 end of central directory record can claim up to 2^64-1 entries, which
panicked with a capacity overflow or aborted on allocation failure.
---
 src/base/read/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 6924d26..9beb9aa 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -20,7 +20,7 @@ use crate::entry::{StoredZipEntry, ZipEntry};
 use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
-use crate::spec::consts::LFH_LENGTH;
+use crate::spec::consts::{LFH_LENGTH, NON_ZIP64_MAX_NUM_FILES};
 use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -85,8 +85,9 @@ pub(crate) async fn cd<R>(mut reader: R, num_of_entries: u64, zip64: bool) -> Re
 where
     R: AsyncRead + Unpin,
 {
-    let num_of_entries = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
-    let mut entries = Vec::with_capacity(num_of_entries);
+    let num_of_entries: usize = num_of_entries.try_into().map_err(|_| ZipError::TargetZip64NotSupported)?;
+    // The entry count is untrusted, so only use it as a bounded capacity hint.
+    let mut entries = Vec::with_capacity(num_of_entries.min(NON_ZIP64_MAX_NUM_FILES as usize));
 
     for _ in 0..num_of_entries {
         let entry = cd_record(&mut reader, zip64).await?;
-- 
2.43.0


From a65648ee09e0eb404dc9adf6f5eedd36fabd5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 03/14] fix: do not swap the sizes of streamed entries when
 ZIP64 is disabled

---
 src/base/write/entry_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 537f1ae..e6fe15e 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -216,7 +216,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile));
             }
-            (self.entry.uncompressed_size as u32, compressed_size as u32, self.lfh_offset as u32)
+            (compressed_size as u32, self.entry.uncompressed_size as u32, self.lfh_offset as u32)
         } else {
             // When streaming an entry, we are always using a zip64 field.
             match get_zip64_extra_field_mut(&mut self.entry.extra_fields) {
-- 
2.43.0


From 6bd406496567496bf1a3ba5b7bc7cbb0011e6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 04/14] fix: reject an archive comment which exceeds its 16-bit
 length field

---
 src/base/write/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index e8b8186..de972f7 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -258,7 +258,13 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
             num_of_entries: num_entries_in_directory_u16,
             size_cent_dir: central_directory_size_u32,
             cent_dir_offset: cd_offset_u32,
-            file_comm_length: self.comment_opt.as_ref().map(|v| v.len() as u16).unwrap_or_default(),
+            file_comm_length: self
+                .comment_opt
+                .as_deref()
+                .unwrap_or_default()
+                .len()
+                .try_into()
+                .map_err(|_| crate::error::ZipError::CommentTooLarge)?,
         };
 
         self.writer.write_all(&crate::spec::consts::EOCDR_SIGNATURE.to_le_bytes()).await?;
-- 
2.43.0


From 0368f1fa68311edf791b8e8a4340df1abc250fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 05/14] fix: do not carry a stale ZIP64 field over when
 rewriting an entry

---
 src/base/write/entry_stream.rs | 3 +++
 src/base/write/entry_whole.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index e6fe15e..306f1e9 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -105,6 +105,9 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
     }
 
     async fn write_lfh(writer: &'b mut ZipFileWriter<W>, entry: &mut ZipEntry) -> Result<LocalFileHeader> {
+        // An entry read from another archive may carry a ZIP64 field which describes that archive's layout, not ours.
+        entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         // Always emit a zip64 extended field, even if we don't need it, because we *might* need it.
         // If we are forcing no zip, we will have to error later if the file is too large.
         let (lfh_compressed, lfh_uncompressed) = if !writer.force_no_zip64 {
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d38f1db..7fdbd80 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -147,6 +147,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     pub async fn write(mut self) -> Result<()> {
+        // An entry read from another archive may carry a ZIP64 field which describes that archive's layout, not ours.
+        self.entry.extra_fields.retain(|field| !matches!(field, ExtraField::Zip64ExtendedInformation(_)));
+
         if !self.precompressed {
             self.entry.uncompressed_size = self.data.len() as u64;
             self.entry.crc32 = crc32fast::hash(&self.data);
-- 
2.43.0


From fa809cddb015a5562b011351b2b08f4e84807584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 06/14] fix: store a size equal to the ZIP64 marker in the
 ZIP64 field

---
 src/base/write/entry_whole.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 7fdbd80..443ac25 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -62,8 +62,9 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_sizes(&mut self) -> Result<()> {
-        let uncompressed_larger = self.entry.uncompressed_size > NON_ZIP64_MAX_SIZE.into();
-        let compressed_larger = self.entry.compressed_size > NON_ZIP64_MAX_SIZE.into();
+        // A size equal to the maximum is indistinguishable from the marker for a size stored in the ZIP64 field.
+        let uncompressed_larger = self.entry.uncompressed_size >= NON_ZIP64_MAX_SIZE.into();
+        let compressed_larger = self.entry.compressed_size >= NON_ZIP64_MAX_SIZE.into();
 
         if !uncompressed_larger && !compressed_larger {
             return Ok(());
-- 
2.43.0


From 58286a865b6cdd8566c7c8f9795188422ba5e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 07/14] fix: replace instead of merge a date component which is
 already set

---
 src/date/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/date/builder.rs b/src/date/builder.rs
index ea660f9..9768045 100644
--- a/src/date/builder.rs
+++ b/src/date/builder.rs
@@ -27,35 +27,35 @@ impl ZipDateTimeBuilder {
     /// Sets the date and time's year.
     pub fn year(mut self, year: i32) -> Self {
         let year: u16 = (((year - 1980) << 9) & 0xFE00).try_into().unwrap();
-        self.0.date |= year;
+        self.0.date = (self.0.date & !0xFE00) | year;
         self
     }
 
     /// Sets the date and time's month.
     pub fn month(mut self, month: u32) -> Self {
         let month: u16 = ((month << 5) & 0x1E0).try_into().unwrap();
-        self.0.date |= month;
+        self.0.date = (self.0.date & !0x1E0) | month;
         self
     }
 
     /// Sets the date and time's day.
     pub fn day(mut self, day: u32) -> Self {
         let day: u16 = (day & 0x1F).try_into().unwrap();
-        self.0.date |= day;
+        self.0.date = (self.0.date & !0x1F) | day;
         self
     }
 
     /// Sets the date and time's hour.
     pub fn hour(mut self, hour: u32) -> Self {
         let hour: u16 = ((hour << 11) & 0xF800).try_into().unwrap();
-        self.0.time |= hour;
+        self.0.time = (self.0.time & !0xF800) | hour;
         self
     }
 
     /// Sets the date and time's minute.
     pub fn minute(mut self, minute: u32) -> Self {
         let minute: u16 = ((minute << 5) & 0x7E0).try_into().unwrap();
-        self.0.time |= minute;
+        self.0.time = (self.0.time & !0x7E0) | minute;
         self
     }
 
@@ -64,7 +64,7 @@ impl ZipDateTimeBuilder {
     /// Note that MS-DOS has a maximum granularity of two seconds.
     pub fn second(mut self, second: u32) -> Self {
         let second: u16 = ((second >> 1) & 0x1F).try_into().unwrap();
-        self.0.time |= second;
+        self.0.time = (self.0.time & !0x1F) | second;
         self
     }
 
-- 
2.43.0


From 2c3a4507ad4030da6c607d8f55961424f77e2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 08/14] fix: treat an archive without entries as finished when
 stream reading

---
 src/base/read/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 9beb9aa..966f9e0 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -20,7 +20,7 @@ use crate::entry::{StoredZipEntry, ZipEntry};
 use crate::error::{Result, ZipError};
 use crate::file::ZipFile;
 use crate::spec::attribute::AttributeCompatibility;
-use crate::spec::consts::{LFH_LENGTH, NON_ZIP64_MAX_NUM_FILES};
+use crate::spec::consts::{EOCDR_SIGNATURE, LFH_LENGTH, NON_ZIP64_MAX_NUM_FILES, ZIP64_EOCDR_SIGNATURE};
 use crate::spec::consts::{CDH_SIGNATURE, LFH_SIGNATURE, NON_ZIP64_MAX_SIZE, SIGNATURE_LENGTH, ZIP64_EOCDL_LENGTH};
 use crate::spec::header::InfoZipUnicodeCommentExtraField;
 use crate::spec::header::InfoZipUnicodePathExtraField;
@@ -208,6 +208,8 @@ where
     match signature {
         actual if actual == LFH_SIGNATURE => (),
         actual if actual == CDH_SIGNATURE => return Ok(None),
+        // The central directory of an archive without any entries is empty.
+        actual if actual == EOCDR_SIGNATURE || actual == ZIP64_EOCDR_SIGNATURE => return Ok(None),
         actual => return Err(ZipError::UnexpectedHeaderError(actual, LFH_SIGNATURE)),
     };
 
-- 
2.43.0


From 0cd160f86bf224a3c749b14a0ef9e390d5d315d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 09/14] fix: reject a name, extra field or comment cut short by
 the end of the source

---
 src/base/read/io/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/read/io/mod.rs b/src/base/read/io/mod.rs
index 3955297..06729e2 100644
--- a/src/base/read/io/mod.rs
+++ b/src/base/read/io/mod.rs
@@ -29,6 +29,10 @@ where
     let mut buffer = Vec::with_capacity(length);
     reader.take(length as u64).read_to_end(&mut buffer).await?;
 
+    if buffer.len() != length {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+
     Ok(buffer)
 }
 
-- 
2.43.0


From ecb85720364a325dbaaf6666ddcc6cdd84df460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 10/14] fix: do not list an entry which was refused as one too
 many without ZIP64

---
 src/base/write/entry_stream.rs | 4 ++--
 src/base/write/entry_whole.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/write/entry_stream.rs b/src/base/write/entry_stream.rs
index 306f1e9..3798f0d 100644
--- a/src/base/write/entry_stream.rs
+++ b/src/base/write/entry_stream.rs
@@ -273,9 +273,8 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
             lh_offset,
         };
 
-        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -283,6 +282,7 @@ impl<'b, W: AsyncWrite + Unpin> EntryStreamWriter<'b, W> {
                 *self.is_zip64 = true;
             }
         }
+        self.cd_entries.push(CentralDirectoryEntry { header: cdh, entry: self.entry });
 
         Ok(())
     }
diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index 443ac25..d3c9b98 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -230,9 +230,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.entry.extra_fields().count_bytes().try_into().map_err(|_| ZipError::ExtraFieldTooLarge)?;
         }
 
-        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         // Ensure that we can fit this many files in this archive if forcing no zip64
-        if self.writer.cd_entries.len() > NON_ZIP64_MAX_NUM_FILES as usize {
+        if self.writer.cd_entries.len() >= NON_ZIP64_MAX_NUM_FILES as usize {
             if self.writer.force_no_zip64 {
                 return Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles));
             }
@@ -240,6 +239,7 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
                 self.writer.is_zip64 = true;
             }
         }
+        self.writer.cd_entries.push(CentralDirectoryEntry { header, entry: self.entry });
         Ok(())
     }
 }
-- 
2.43.0


From 11e120b2cdd09f2bfaa4644a49bcad49c07551fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 11/14] fix: use ZIP64 end records for a central directory
 larger than 4 GiB

---
 src/base/write/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/write/mod.rs b/src/base/write/mod.rs
index de972f7..dd0f36b 100644
--- a/src/base/write/mod.rs
+++ b/src/base/write/mod.rs
@@ -203,6 +203,10 @@ impl<W: AsyncWrite + Unpin> ZipFileWriter<W> {
 
         let central_directory_size = self.writer.offset() - cd_offset;
         let central_directory_size_u32 = if central_directory_size > NON_ZIP64_MAX_SIZE as u64 {
+            if self.force_no_zip64 {
+                return Err(crate::error::ZipError::Zip64Needed(crate::error::Zip64ErrorCase::LargeFile));
+            }
+            self.is_zip64 = true;
             NON_ZIP64_MAX_SIZE
         } else {
             central_directory_size as u32
-- 
2.43.0


From b99394302117ac44c20850fab782a833ef484731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:39 +0000
Subject: [PATCH 12/14] fix: store a header offset equal to the ZIP64 marker in
 the ZIP64 field

---
 src/base/write/entry_whole.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/write/entry_whole.rs b/src/base/write/entry_whole.rs
index d3c9b98..31724ff 100644
--- a/src/base/write/entry_whole.rs
+++ b/src/base/write/entry_whole.rs
@@ -84,7 +84,8 @@ impl<'b, 'c, W: AsyncWrite + Unpin> EntryWholeWriter<'b, 'c, W> {
     }
 
     fn enforce_zip64_offset(&mut self) -> Result<()> {
-        if self.lh_offset <= NON_ZIP64_MAX_SIZE.into() {
+        // As with the sizes, an offset equal to the maximum is indistinguishable from the marker.
+        if self.lh_offset < NON_ZIP64_MAX_SIZE.into() {
             return Ok(());
         }
 
-- 
2.43.0


From 5e199f40b181065a64484b750925a1fb17e0b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:38 +0000
Subject: [PATCH 13/14] fix: reject an oversized extra field without an
 arithmetic underflow

---
 src/base/read/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/base/read/mod.rs b/src/base/read/mod.rs
index 966f9e0..25f7c0a 100644
--- a/src/base/read/mod.rs
+++ b/src/base/read/mod.rs
@@ -137,6 +137,22 @@ fn get_combined_sizes(
     Ok((uncompressed_size, compressed_size))
 }
 
+/// Rejects extra field data in which the declared size of a field exceeds the bytes left for it.
+fn check_extra_fields(data: &[u8]) -> Result<()> {
+    let mut rest = data;
+
+    while rest.len() >= 4 {
+        let field_size = u16::from_le_bytes([rest[2], rest[3]]);
+        let available = rest.len() - 4;
+        if field_size as usize > available {
+            return Err(ZipError::InvalidExtraFieldHeader(field_size, available));
+        }
+        rest = &rest[4 + field_size as usize..];
+    }
+
+    Ok(())
+}
+
 pub(crate) async fn cd_record<R>(mut reader: R, _zip64: bool) -> Result<StoredZipEntry>
 where
     R: AsyncRead + Unpin,
@@ -149,6 +165,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
+    check_extra_fields(&extra_field)?;
     let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
     let comment_basic = io::read_bytes(reader, header.file_comment_length.into()).await?;
 
@@ -217,6 +234,7 @@ where
     let filename_basic = io::read_bytes(&mut reader, header.file_name_length.into()).await?;
     let compression = Compression::try_from(header.compression)?;
     let extra_field = io::read_bytes(&mut reader, header.extra_field_length.into()).await?;
+    check_extra_fields(&extra_field)?;
     let extra_fields = parse_extra_fields(extra_field, header.uncompressed_size, header.compressed_size)?;
 
     let zip64_extra_field = get_zip64_extra_field(&extra_fields);
-- 
2.43.0


From 8f24a52198b6c30423ef289e99108734155e3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:01 +0000
Subject: [PATCH 14/14] fix: find the end record when the archive comment
 contains its signature

---
 src/base/read/io/locator.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/base/read/io/locator.rs b/src/base/read/io/locator.rs
index 5e7c0ad..21422fb 100644
--- a/src/base/read/io/locator.rs
+++ b/src/base/read/io/locator.rs
@@ -37,6 +37,9 @@ const EOCDR_LOWER_BOUND: u64 = EOCDR_UPPER_BOUND + SIGNATURE_LENGTH as u64 + u16
 /// Locate the `end of central directory record` offset, if one exists.
 /// The returned offset excludes the signature (4 bytes)
 ///
+/// As the file comment itself may contain the signature, we prefer the last signature which starts a record whose
+/// comment ends exactly at the end of the data, and only fall back to the very last signature if there is none.
+///
 /// This method involves buffered reading in reverse and reverse linear searching along those buffers for the EOCDR
 /// signature. As a result of this buffered approach, we reduce seeks when compared to `zip-rs`'s method by a factor
 /// of the buffer size. We also then don't have to do individual u32 reads against the upstream reader.
@@ -51,6 +54,7 @@ where
     let signature = &EOCDR_SIGNATURE.to_le_bytes();
     let mut buffer: [u8; BUFFER_SIZE] = [0; BUFFER_SIZE];
 
+    let mut fallback = None;
     let mut position = length.saturating_sub(BUFFER_SIZE as u64);
     reader.seek(SeekFrom::Start(position)).await?;
 
@@ -66,19 +70,31 @@ where
             read += bytes_read;
         }
 
-        if let Some(match_index) = reverse_search_buffer(&buffer[..read], signature) {
-            return Ok(position + (match_index + 1) as u64);
+        let mut search_end = read;
+        while let Some(match_index) = reverse_search_buffer(&buffer[..search_end], signature) {
+            let offset = position + (match_index + 1) as u64;
+
+            // The comment length is the last field of the record.
+            if let Some(record) = buffer[..read].get(match_index + 1..match_index + 1 + EOCDR_LENGTH) {
+                let comment_length = u16::from_le_bytes([record[EOCDR_LENGTH - 2], record[EOCDR_LENGTH - 1]]);
+                if offset + EOCDR_LENGTH as u64 + comment_length as u64 == length {
+                    return Ok(offset);
+                }
+            }
+
+            fallback.get_or_insert(offset);
+            search_end = match_index;
         }
 
         // If we hit the start of the data or the lower bound, we're unable to locate the EOCDR.
         if position == 0 || position <= length.saturating_sub(EOCDR_LOWER_BOUND) {
-            return Err(ZipError::UnableToLocateEOCDR);
+            return fallback.ok_or(ZipError::UnableToLocateEOCDR);
         }
 
-        // To handle the case where the EOCDR signature crosses buffer boundaries, we simply overlap reads by the
-        // signature length. This significantly reduces the complexity of handling partial matches with very little
-        // overhead.
-        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH) as u64);
+        // To handle the case where the EOCDR crosses buffer boundaries, we simply overlap reads by the length of the
+        // signature and the record. This significantly reduces the complexity of handling partial matches with very
+        // little overhead.
+        position = position.saturating_sub((BUFFER_SIZE - SIGNATURE_LENGTH - EOCDR_LENGTH) as u64);
         reader.seek(SeekFrom::Start(position)).await?;
     }
 }
-- 
2.43.0

