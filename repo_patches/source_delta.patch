From 7ca91d2461fd482392ad65d086bb83e5f641e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 01/29] fix: XorStream advances its key only by the bytes
 actually transferred

---
 src/xor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..5c7890e 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,8 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // Only the bytes that were actually read may consume key material.
+        for byte in buf.iter_mut().take(bytes_read) {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -50,15 +51,23 @@ impl<R: Read> Read for XorStream<R> {
 
 impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        let mut key = self.key.clone();
         let encrypted_buffer: Vec<u8> = buf
             .iter()
             .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
+                let key_byte = key.next().unwrap_or(0);
                 x ^ key_byte
             })
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+
+        // Only the bytes that were actually written may consume key material.
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 2e91fc57cd6acfceef8d8cd18f33c4c17c95ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 02/29] fix: reject or saturate out-of-range DeviceSQL string
 lengths instead of panicking

---
 src/pdb/string.rs | 74 +++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..939f1c8 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -19,6 +19,17 @@ use thiserror::Error;
 
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
 
+/// Size of everything in front of the body of a long string.
+const LONG_HEADER_SIZE: u16 = 4;
+
+/// Header of a short string, which encodes the length (including the header itself).
+fn short_string_header(content: &[u8]) -> Result<u8, StringError> {
+    if content.len() > MAX_SHORTSTR_SIZE {
+        return Err(StringError::TooLong);
+    }
+    u8::try_from(((content.len() + 1) << 1) | 1).map_err(|_| StringError::TooLong)
+}
+
 /// Error Objects occurring when dealing with [DeviceSQLString]'s
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Error)]
 #[non_exhaustive]
@@ -70,17 +81,16 @@ impl DeviceSQLString {
                 content: string.as_bytes().to_owned(),
             }))
         } else if len <= (i16::MAX as usize) {
-            if only_ascii {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    content: LongBody::Ascii(string.as_bytes().to_owned()),
-                }))
+            let content = if only_ascii {
+                LongBody::Ascii(string.as_bytes().to_owned())
             } else {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
-                }))
-            }
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                LongBody::Ucs2le(string.encode_utf16().collect())
+            };
+            // The length field counts the header as well.
+            content.total_length()?;
+            Ok(Self(DeviceSQLStringImpl::Long { content }))
         } else {
             Err(StringError::TooLong)
         }
@@ -98,7 +108,7 @@ impl DeviceSQLString {
         }
         // basic validation taken from
         // https://isrc.ifpi.org/downloads/ISRC_Bulletin-2015-01.pdf
-        if string.len() != 12 || !string.is_ascii() {
+        if string.len() != 12 || !string.is_ascii() || string.contains('\0') {
             return Err(StringError::InvalidISRC);
         }
         Ok(Self(DeviceSQLStringImpl::Long {
@@ -150,11 +160,9 @@ impl fmt::Display for DeviceSQLString {
             | DeviceSQLStringImpl::Long {
                 content: LongBody::Ascii(content),
                 ..
-            } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
-            }
+                // NOTE: The content of a parsed string is not validated, so invalid sequences are
+                // replaced here, just like for UTF-16 below.
+            } => f.write_str(&String::from_utf8_lossy(content)),
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
             } => {
@@ -186,14 +194,10 @@ impl PageHeapObject for DeviceSQLString {
     fn heap_bytes_required(&self, _: ()) -> u16 {
         match &self.0 {
             DeviceSQLStringImpl::ShortASCII { content } => {
-                (0u8).heap_bytes_required(()) + content.len() as u16
-            }
-            DeviceSQLStringImpl::Long { content } => {
-                (0u8).heap_bytes_required(())
-                    + (0u16).heap_bytes_required(())
-                    + (0u8).heap_bytes_required(())
-                    + content.byte_count().unwrap()
+                let len = u16::try_from(content.len()).unwrap_or(u16::MAX);
+                (0u8).heap_bytes_required(()).saturating_add(len)
             }
+            DeviceSQLStringImpl::Long { content } => content.total_length().unwrap_or(u16::MAX),
         }
     }
 }
@@ -222,10 +226,11 @@ enum DeviceSQLStringImpl {
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
         #[br(temp, assert(header & 0b1 == 1))]
-        #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
+        #[bw(try_calc = short_string_header(content))]
         header: u8,
 
-        #[br(count = usize::from(header >> 1) - 1)]
+        #[br(assert(header > 1, "short string length does not cover its own header"))]
+        #[br(count = usize::from(header >> 1).saturating_sub(1))]
         content: Vec<u8>,
     },
     /// Regular long form strings, containing possibly different encodings
@@ -236,11 +241,12 @@ enum DeviceSQLStringImpl {
         flags: u8,
 
         #[br(temp)]
-        #[bw(calc = content.byte_count().unwrap() + 4)]
+        #[br(assert(length >= LONG_HEADER_SIZE, "string length does not cover its own header"))]
+        #[bw(try_calc = content.total_length())]
         length: u16,
 
         #[brw(magic(0u8))] // padding
-        #[br(args(flags, length - 4))]
+        #[br(args(flags, length.saturating_sub(LONG_HEADER_SIZE)))]
         content: LongBody,
     },
 }
@@ -255,7 +261,13 @@ enum LongBody {
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
     // a semi-dirty workaround
     #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    Isrc(
+        // The null-terminated string needs to make up the whole body, otherwise this is just an
+        // UCS-2 string that happens to start with the magic byte.
+        #[brw(magic = 0x3u8)]
+        #[br(assert(self_0.len() + 2 == usize::from(len)))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
@@ -274,6 +286,12 @@ impl LongBody {
         .try_into()
         .map_err(|_| StringError::TooLong)
     }
+    /// Length of the serialized string including its header, i.e. the value of its length field.
+    pub fn total_length(&self) -> Result<u16, StringError> {
+        self.byte_count()?
+            .checked_add(LONG_HEADER_SIZE)
+            .ok_or(StringError::TooLong)
+    }
     pub fn flags(&self) -> u8 {
         match self {
             Self::Ucs2le(_) | Self::Isrc(_) => 0x90,
-- 
2.43.0


From ecd0bc3a111d25e144c995aed23ab29ae52ea15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:03 +0000
Subject: [PATCH 03/29] fix: report page 0 as not present instead of
 underflowing in load_page

---
 src/pdb/io.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..067bafb 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,11 +102,15 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
+        // Page indices are 1-based, the page at index 0 is occupied by the header.
+        let slice_index = (index.0 as usize)
+            .checked_sub(1)
+            .ok_or(RekordcrateError::PageNotPresent(index))?;
         let page_entry = self
             .content
             .pages
-            .get_mut(index.0 as usize - 1)
-            .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
+            .get_mut(slice_index)
+            .ok_or(RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
                 &mut self.io,
-- 
2.43.0


From 022ceb4e927830881281380e55f1396ce9e26f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 04/29] fix: return an error when a page contains rows of
 another type than its table

---
 src/pdb/io.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 067bafb..d61598d 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -183,9 +183,12 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the type in the page header, which differs from
+            // the type of the table in a corrupt DB.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError("unexpected row type"))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From db39e3bc28e234209e5475eed135912c772378c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 05/29] fix: do not allocate more lazy pages than the file can
 contain

---
 src/pdb/io.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d61598d..008f7c4 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -35,7 +35,7 @@ struct LazyDatabase {
     #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = unloaded_pages, args(header.page_size, header.next_unused_page))]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
@@ -46,6 +46,21 @@ enum LazyPage {
     Loaded(Page),
 }
 
+/// Creates the (not yet loaded) pages of a database.
+///
+/// The number of pages found in the header is not trustworthy, so this never creates more pages
+/// than there can be in the underlying file.
+#[binrw::parser(reader)]
+fn unloaded_pages(page_size: u32, next_unused_page: PageIndex) -> BinResult<Vec<LazyPage>> {
+    let position = reader.stream_position()?;
+    let file_size = reader.seek(SeekFrom::End(0))?;
+    reader.seek(SeekFrom::Start(position))?;
+
+    let max_pages = file_size.div_ceil(u64::from(page_size.max(1)));
+    let num_pages = u64::from(next_unused_page.0.saturating_sub(1)).min(max_pages);
+    Ok((0..num_pages).map(|_| LazyPage::NotLoaded).collect())
+}
+
 impl BinWrite for LazyPage {
     type Args<'a> = (u32,);
 
-- 
2.43.0


From 1f667d4af6f1012112be37230b49565b70f2ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 06/29] fix: do not underflow on page sizes smaller than the
 page headers

---
 src/pdb/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..da1175d 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -684,7 +684,7 @@ pub struct DataPageContent {
 
 impl DataPageContent {
     fn page_heap_size(page_size: u32) -> u32 {
-        page_size - PageHeader::BINARY_SIZE - DataPageHeader::BINARY_SIZE
+        page_size.saturating_sub(PageHeader::BINARY_SIZE + DataPageHeader::BINARY_SIZE)
     }
 }
 
-- 
2.43.0


From a0548fea8fa1cf049139ab44e4f54664fdd65920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:16 +0000
Subject: [PATCH 07/29] fix: fail instead of underflowing when index entries do
 not fit into the page

---
 src/pdb/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index da1175d..9c515ac 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -53,6 +53,9 @@ pub enum PdbError {
     /// Invalid flags were passed when creating an `IndexEntry`.
     #[error("Invalid index flags (expected max 3 bits): {0:#b}")]
     InvalidIndexFlags(u8),
+    /// An index page contains more entries than fit into a page.
+    #[error("Too many index entries for the page: {0}")]
+    TooManyIndexEntries(usize),
 }
 
 /// The type of the database were looking at.
@@ -367,9 +370,7 @@ pub struct IndexPageContent {
     // Write empty entries to pad out the rest of the page, except the last
     // 20 bytes which are zeros instead.
     #[br(temp)]
-    #[bw(calc = EmptyIndexEntries(
-        Self::total_entries(page_size) - usize::from(header.num_entries)
-    ))]
+    #[bw(try_calc = Self::empty_entries(page_size, entries))]
     #[bw(pad_after = 20)]
     _empty_entries: EmptyIndexEntries,
 }
@@ -377,10 +378,23 @@ pub struct IndexPageContent {
 impl IndexPageContent {
     fn total_entries(page_size: u32) -> usize {
         // The last 20 bytes in an index page are zeros.
-        let entries_space = page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - 20;
-        (entries_space / IndexEntry::BINARY_SIZE)
-            .try_into()
-            .unwrap()
+        let entries_space =
+            page_size.saturating_sub(PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20);
+        (entries_space / IndexEntry::BINARY_SIZE) as usize
+    }
+
+    /// Calculate the number of empty entries needed to fill the page.
+    ///
+    /// Fails if the entries do not fit into the page, because writing them would overwrite the
+    /// following page.
+    fn empty_entries(
+        page_size: u32,
+        entries: &[IndexEntry],
+    ) -> Result<EmptyIndexEntries, PdbError> {
+        Self::total_entries(page_size)
+            .checked_sub(entries.len())
+            .map(EmptyIndexEntries)
+            .ok_or(PdbError::TooManyIndexEntries(entries.len()))
     }
 }
 
-- 
2.43.0


From 36c9dd238cf2ba8ece24b971e0aaac67f8e642b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 08/29] fix: do not panic in Debug for index entries with an
 invalid page index

---
 src/pdb/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 9c515ac..1062ec6 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -307,9 +307,13 @@ impl fmt::Debug for IndexEntry {
                 .field("is_empty", &self.is_empty())
                 .finish()
         } else {
-            f.debug_struct("IndexEntry")
-                .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
+            let mut debug_struct = f.debug_struct("IndexEntry");
+            debug_struct.field("is_empty", &self.is_empty());
+            match self.page_index() {
+                Ok(page_index) => debug_struct.field("page_index", &page_index),
+                Err(error) => debug_struct.field("page_index", &error),
+            };
+            debug_struct
                 .field("index_flags", &self.index_flags())
                 .finish()
         }
-- 
2.43.0


From 5c2619b3f9b7790a51f23c913189203bca226708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 09/29] fix: reject page indices that do not fit into an index
 entry

---
 src/pdb/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 1062ec6..77db0bc 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -269,6 +269,9 @@ impl TryFrom<(PageIndex, u8)> for IndexEntry {
         if index_flags & 0b111 != index_flags {
             return Err(PdbError::InvalidIndexFlags(index_flags));
         }
+        // Page indices that have not been validated (e.g. because they were parsed from a file) may
+        // not fit into the upper 29 bits.
+        let page_index = PageIndex::try_from(page_index.0)?;
         Ok(Self((page_index.0 << 3) | (index_flags & 0b111) as u32))
     }
 }
-- 
2.43.0


From 4d124ce61912f78259a361757a2ee617d923f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 10/29] fix: allocate_row returns None instead of panicking on
 inconsistent or full pages

---
 src/pdb/bitfields.rs | 16 ++++++++++-----
 src/pdb/mod.rs       | 48 ++++++++++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..1919949 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -60,13 +60,19 @@ impl PackedRowCounts {
     }
 
     /// Increment the number of rows e.g. when we allocate a row in the page.
-    pub(crate) fn increment_num_rows(&mut self) {
-        self.set_num_rows(self.num_rows() + 1);
+    ///
+    /// Returns `None` if the number of rows would become too large.
+    pub(crate) fn increment_num_rows(&mut self) -> Option<()> {
+        let num_rows = self.num_rows().checked_add(1)?;
+        self.set_num_rows_checked(num_rows).ok()
     }
 
-    // Increment the number of valid rows e.g. when we insert a row into the page.
-    pub(crate) fn increment_num_rows_valid(&mut self) {
-        self.set_num_rows_valid(self.num_rows_valid() + 1);
+    /// Increment the number of valid rows e.g. when we insert a row into the page.
+    ///
+    /// Returns `None` if the number of rows would become too large.
+    pub(crate) fn increment_num_rows_valid(&mut self) -> Option<()> {
+        let num_rows_valid = self.num_rows_valid().checked_add(1)?;
+        self.set_num_rows_valid_checked(num_rows_valid).ok()
     }
 }
 
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 77db0bc..e5adbf4 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -596,42 +596,52 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
 
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
-                self.header.free_size -= bytes;
-                let row_counts = &mut self.header.packed_row_counts;
-                row_counts.increment_num_rows();
-                let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
+                let used_size = offset.checked_add(bytes)?;
+                if dpc.rows.contains_key(&offset) {
+                    // The used size does not match the actual rows.
+                    return None;
+                }
 
-                if dpc.row_groups.get(row_group_index as usize).is_none() {
+                // Make sure that the new row can be counted before modifying anything.
+                let mut new_row_counts = self.header.packed_row_counts;
+                new_row_counts.increment_num_rows()?;
+                let mut new_valid_row_counts = new_row_counts;
+                new_valid_row_counts.increment_num_rows_valid()?;
+
+                let (row_group_index, row_subindex) = new_row_counts.last_row_index()?;
+                let row_group_index = usize::from(row_group_index);
+                let is_new_row_group = row_group_index == dpc.row_groups.len();
+                if is_new_row_group {
                     dpc.row_groups.push(RowGroup::empty());
-                    self.header.free_size -= RowGroup::HEADER_SIZE;
                 }
 
-                let row_group = dpc.row_groups.get_mut(row_group_index as usize).unwrap();
+                let row_group = dpc.row_groups.get_mut(row_group_index)?;
                 row_group.insert_offset(row_subindex, offset);
-                self.header.free_size -= RowGroup::OFFSET_SIZE;
 
+                self.header.used_size = used_size;
+                self.header.free_size -= bytes + RowGroup::OFFSET_SIZE;
+                if is_new_row_group {
+                    self.header.free_size -= RowGroup::HEADER_SIZE;
+                }
+                self.header.packed_row_counts = new_row_counts;
+
+                let row_counts = &mut self.header.packed_row_counts;
                 let rows = &mut dpc.rows;
 
                 Some(move |row: Row| {
-                    let prev_entry = rows.insert(offset, row);
-                    if let Some(prev_entry) = prev_entry {
-                        panic!(
-                            "Offset {} was already occupied by row {:?}",
-                            offset, prev_entry
-                        );
-                    }
+                    rows.insert(offset, row);
                     row_group.mark_offset_present(row_subindex);
-                    row_counts.increment_num_rows_valid();
+                    *row_counts = new_valid_row_counts;
                 })
             }
         }
-- 
2.43.0


From 2e3c144bda8c58e00823879d03a02cfdf5e87a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 11/29] fix: do not silently truncate the row count in
 from_all_valid

---
 src/pdb/bitfields.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 1919949..d389b04 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -37,10 +37,15 @@ impl Default for PackedRowCounts {
 impl PackedRowCounts {
     /// Create a `PackedRowCounts` assuming all rows in the page are valid,
     /// e.g. when we are serializing a page without any deleted rows.
+    ///
+    /// # Panics
+    ///
+    /// Panics if a page can not contain `num_rows` valid rows.
     pub fn from_all_valid(num_rows: usize) -> Self {
+        let num_rows = u16::try_from(num_rows).expect("too many rows for a single page");
         Self::new()
-            .with_num_rows(num_rows as u16)
-            .with_num_rows_valid(num_rows as u16)
+            .with_num_rows(num_rows)
+            .with_num_rows_valid(num_rows)
     }
 
     /// Get the number of row groups in the page.
-- 
2.43.0


From 55e7edd7fbda78de7ca06ddc2fdf3b33d125acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:36 +0000
Subject: [PATCH 12/29] fix: reject ANLZ headers with sizes that do not cover
 the header itself

---
 src/anlz.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..55713ee 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,18 +118,23 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= Self::BINARY_SIZE, "header size does not cover the header itself"))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size, "section size does not cover its header"))]
     pub total_size: u32,
 }
 
 impl Header {
+    /// Size of the `kind`, `size` and `total_size` fields in bytes.
+    const BINARY_SIZE: u32 = 12;
+
     fn remaining_size(&self) -> u32 {
-        self.size - 12
+        self.size.saturating_sub(Self::BINARY_SIZE)
     }
 
     fn content_size(&self) -> u32 {
-        self.total_size - self.size
+        self.total_size.saturating_sub(self.size)
     }
 }
 
-- 
2.43.0


From 5b047ae78da0409fc046815382f7a8451de5227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 13/29] fix: do not truncate or overflow the byte length of
 wide strings

---
 src/anlz.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 55713ee..e82b4f1 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -260,11 +260,19 @@ impl LenPrefixedWideString {
     /// with a trailing NUL terminator (excluding the length prefix).
     #[must_use]
     pub fn byte_len(&self) -> u32 {
+        self.checked_byte_len().unwrap_or(u32::MAX)
+    }
+
+    /// Like [`LenPrefixedWideString::byte_len`], but returns `None` if the length does not fit into
+    /// the length prefix.
+    fn checked_byte_len(&self) -> Option<u32> {
         if self.0.is_empty() {
-            0
-        } else {
-            (self.0.encode_utf16().count() as u32 + 1) * 2
+            return Some(0);
         }
+        u32::try_from(self.0.encode_utf16().count())
+            .ok()?
+            .checked_add(1)?
+            .checked_mul(2)
     }
 }
 
@@ -326,7 +334,12 @@ impl BinWrite for LenPrefixedWideString {
         endian: Endian,
         _args: Self::Args<'_>,
     ) -> BinResult<()> {
-        let bl = self.byte_len();
+        let bl = self
+            .checked_byte_len()
+            .ok_or_else(|| binrw::Error::AssertFail {
+                pos: writer.stream_position().unwrap_or(0),
+                message: "string is too long for its length prefix".to_string(),
+            })?;
         bl.write_options(writer, endian, ())?;
         if bl > 0 {
             let mut bytes: Vec<u8> = Vec::new();
-- 
2.43.0


From f1eb49c2d74e8a4a53d89f2d18492aa47c35d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 14/29] fix: do not allocate an untrusted length when reading
 wide strings

---
 src/anlz.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index e82b4f1..6dced2d 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -305,12 +305,15 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
+        // The length is not trustworthy, so don't allocate more memory than there is data.
+        let mut bytes: Vec<u8> = Vec::new();
+        let bytes_read = reader.take(u64::from(len)).read_to_end(&mut bytes)?;
+        if bytes_read as u64 != u64::from(len) {
+            return Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+        }
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
-- 
2.43.0


From 628af1320f4b10afb1002293ef03931efe7fa9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 15/29] fix: use the stored comment length to find the trailing
 bytes of an extended cue

---
 src/anlz.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 6dced2d..89f93a4 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -396,6 +396,11 @@ pub struct ExtendedCue {
     pub loop_numerator: u16,
     /// Represents the loop size denominator (if this is a quantized loop).
     pub loop_denominator: u16,
+    // Peek at the length prefix, because it does not necessarily match the length of the parsed
+    // comment (e.g. if it consists of nothing but the trailing NUL).
+    #[br(temp, restore_position)]
+    #[bw(ignore)]
+    len_comment: u32,
     /// An UTF-16BE encoded string with a leading `u32` length prefix and a
     /// trailing NUL (`0x0000`).
     pub comment: LenPrefixedWideString,
@@ -487,7 +492,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(count = header.total_size.saturating_sub(len_comment.saturating_add(68)) as usize)]
     pub trailing: Vec<u8>,
 }
 
-- 
2.43.0


From 0434e5c92095d9018c12e081efe3976d9025e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 16/29] fix: do not overflow when deriving the song structure
 key

---
 src/anlz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 89f93a4..b71b902 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1103,7 +1103,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From 7e1f657c1dc20f95c7b9b26fe615d1b5cc426853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 17/29] fix: fail instead of truncating ANLZ length fields on
 write

---
 src/anlz.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index b71b902..c555525 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -800,7 +800,7 @@ pub struct BeatGrid {
     unknown2: u32,
     /// Number of beats in this beatgrid.
     #[br(temp)]
-    #[bw(calc = beats.len() as u32)]
+    #[bw(try_calc = u32::try_from(beats.len()))]
     len_beats: u32,
     /// Beats in this beatgrid.
     #[br(count = len_beats)]
@@ -817,7 +817,7 @@ pub struct CueList {
     unknown: u16,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field.
     memory_count: u32,
@@ -837,7 +837,7 @@ pub struct ExtendedCueList {
     pub list_type: CueListType,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field
     #[br(assert(unknown == 0))]
@@ -855,14 +855,21 @@ pub struct Path {
     /// Length of the path field in bytes.
     #[br(temp)]
     #[br(assert(len_path == header.content_size()))]
-    #[bw(calc = ((path.len() as u32) + 1) * 2)]
+    #[bw(try_calc = Self::byte_len(path).ok_or("path is too long for its length prefix"))]
     len_path: u32,
     /// Path of the audio file.
     #[br(assert(len_path == header.content_size()))]
-    #[br(assert((path.len() as u32 + 1) * 2 == len_path))]
+    #[br(assert(Self::byte_len(&path) == Some(len_path)))]
     pub path: NullWideString,
 }
 
+impl Path {
+    /// Number of bytes of the encoded path including its NUL terminator.
+    fn byte_len(path: &NullWideString) -> Option<u32> {
+        u32::try_from(path.len()).ok()?.checked_add(1)?.checked_mul(2)
+    }
+}
+
 /// Seek information for variable bitrate files (probably).
 #[binrw]
 #[derive(Debug, PartialEq, Eq)]
@@ -883,7 +890,7 @@ pub struct WaveformPreview {
     /// Unknown field.
     #[br(temp)]
     #[br(assert(len_preview == header.content_size()))]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     len_preview: u32,
     /// Unknown field (apparently always `0x00100000`)
     unknown: u32,
@@ -900,7 +907,7 @@ pub struct TinyWaveformPreview {
     /// Unknown field.
     #[br(temp)]
     #[br(assert(len_preview == header.content_size()))]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     len_preview: u32,
     /// Unknown field (apparently always `0x00100000`)
     unknown: u32,
@@ -923,7 +930,7 @@ pub struct WaveformDetail {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
@@ -951,7 +958,7 @@ pub struct WaveformColorPreview {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
     len_entries: u32,
     /// Unknown field.
@@ -975,7 +982,7 @@ pub struct WaveformColorDetail {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
     len_entries: u32,
     /// Unknown field.
@@ -1002,7 +1009,7 @@ pub struct Waveform3BandPreview {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
     len_entries: u32,
     /// Waveform preview column data.
@@ -1024,7 +1031,7 @@ pub struct Waveform3BandDetail {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[bw(calc = data.len() as u32)]
+    #[bw(try_calc = u32::try_from(data.len()))]
     #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
@@ -1053,7 +1060,7 @@ pub struct SongStructure {
     /// Number of entries in this section.
     #[br(temp)]
     #[br(assert((len_entry_bytes * (len_entries as u32)) == header.content_size()))]
-    #[bw(calc = data.phrases.len() as u16)]
+    #[bw(try_calc = u16::try_from(data.phrases.len()))]
     len_entries: u16,
     /// Indicates if the remaining parts of the song structure section are encrypted.
     ///
-- 
2.43.0


From 3855efd9d62e754a9b800be3d607a802e053abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 18/29] fix: do not overflow when validating ANLZ entry sizes

---
 src/anlz.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index c555525..94f17f1 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -866,7 +866,10 @@ pub struct Path {
 impl Path {
     /// Number of bytes of the encoded path including its NUL terminator.
     fn byte_len(path: &NullWideString) -> Option<u32> {
-        u32::try_from(path.len()).ok()?.checked_add(1)?.checked_mul(2)
+        u32::try_from(path.len())
+            .ok()?
+            .checked_add(1)?
+            .checked_mul(2)
     }
 }
 
@@ -931,7 +934,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(try_calc = u32::try_from(data.len()))]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -959,7 +962,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(try_calc = u32::try_from(data.len()))]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -983,7 +986,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(try_calc = u32::try_from(data.len()))]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -1010,7 +1013,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(try_calc = u32::try_from(data.len()))]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -1032,7 +1035,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(try_calc = u32::try_from(data.len()))]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -1059,7 +1062,7 @@ pub struct SongStructure {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[br(assert((len_entry_bytes * (len_entries as u32)) == header.content_size()))]
+    #[br(assert(u64::from(len_entry_bytes) * u64::from(len_entries) == u64::from(header.content_size())))]
     #[bw(try_calc = u16::try_from(data.phrases.len()))]
     len_entries: u16,
     /// Indicates if the remaining parts of the song structure section are encrypted.
-- 
2.43.0


From e058be085ba3a23baceedc7f1026e5a9bd26c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 19/29] fix: return an error instead of overflowing the stack
 on malformed playlist trees

---
 src/device.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..6418cc7 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -13,10 +13,11 @@ use crate::{
     pdb::{DatabaseType, PlaylistTreeNode, PlaylistTreeNodeId},
     setting,
     setting::{Setting, SettingType},
+    util::RekordcrateError,
 };
 use binrw::BinRead;
 use fallible_iterator::FallibleIterator;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::io::{Read, Seek};
 use std::path::{Path, PathBuf};
@@ -521,6 +522,11 @@ pub struct Playlist {
     pub name: String,
 }
 
+/// Maximum nesting depth of the playlist tree.
+///
+/// The playlist tree is loaded recursively, so this protects against malformed databases.
+const MAX_PLAYLIST_DEPTH: usize = 256;
+
 /// Get playlist tree.
 pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<PlaylistNode>> {
     let mut playlists: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
@@ -535,8 +541,20 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
 
     fn get_child_nodes(
         playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        visited: &mut HashSet<PlaylistTreeNodeId>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+        depth: usize,
+    ) -> crate::Result<Vec<PlaylistNode>> {
+        if depth >= MAX_PLAYLIST_DEPTH {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist tree is nested too deeply",
+            ));
+        }
+        if !visited.insert(id) {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist tree contains a cycle",
+            ));
+        }
         playlists
             .get(&id)
             .into_iter()
@@ -546,8 +564,7 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        children: get_child_nodes(playlists, visited, node.id, depth + 1)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
@@ -559,7 +576,8 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&playlists, &mut HashSet::new(), PlaylistTreeNodeId(0), 0)
 }
-- 
2.43.0


From 454354efae2f35db689a27df5f1d4d14ff96ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 20/29] fix: do not recurse infinitely when listing malformed
 playlist trees

---
 src/main.rs | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 818a014..84fa6d8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -14,7 +14,10 @@ use rekordcrate::pdb::io::Database;
 use rekordcrate::pdb::*;
 use rekordcrate::setting::{Setting, SettingType};
 use rekordcrate::xml::Document;
-use rekordcrate::{anlz::ANLZ, util::TableIndex};
+use rekordcrate::{
+    anlz::ANLZ,
+    util::{RekordcrateError, TableIndex},
+};
 use std::collections::BTreeMap;
 use std::fs::File;
 use std::path::{Path, PathBuf};
@@ -87,7 +90,10 @@ enum Commands {
 
 fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::pdb::{PlaylistTreeNode, PlaylistTreeNodeId};
-    use std::collections::{BTreeMap, HashMap};
+    use std::collections::{BTreeMap, HashMap, HashSet};
+
+    /// Maximum nesting depth of the playlist tree.
+    const MAX_PLAYLIST_DEPTH: usize = 256;
 
     let reader = File::open(path)?;
     let mut db = Database::open_non_persistent(reader, DatabaseType::Plain)?;
@@ -152,13 +158,24 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
+        visited: &mut HashSet<PlaylistTreeNodeId>,
         id: PlaylistTreeNodeId,
         level: usize,
-    ) {
+    ) -> rekordcrate::Result<()> {
+        if level >= MAX_PLAYLIST_DEPTH {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist tree is nested too deeply",
+            ));
+        }
+        if !visited.insert(id) {
+            return Err(RekordcrateError::IntegrityError(
+                "playlist tree contains a cycle",
+            ));
+        }
         tree.get(&id)
             .iter()
             .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
+            .try_for_each(|node| {
                 let indentation = "    ".repeat(level);
                 println!(
                     "{}{} {}",
@@ -172,8 +189,16 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                         print_track(track_id, artists, tracks);
                     }
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+                print_children_of(
+                    tree,
+                    tree_entries,
+                    artists,
+                    tracks,
+                    visited,
+                    node.id,
+                    level + 1,
+                )
+            })
     }
 
     print_children_of(
@@ -181,11 +206,10 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         &playlist_entries,
         &artists,
         &tracks,
+        &mut HashSet::new(),
         PlaylistTreeNodeId(0),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 979e1e98e8d45dad377707d5154c39ea1afd722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:59 +0000
Subject: [PATCH 21/29] fix: keep exported playlists inside of the output
 directory

---
 src/main.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 84fa6d8..7017a43 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -240,16 +240,35 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    /// Turns the name of a playlist or folder into a single path component.
+    ///
+    /// The name originates from the database, so it must not be able to refer to anything outside of
+    /// the output directory.
+    fn path_component(name: &str, extension: &str) -> String {
+        let name: String = name
+            .chars()
+            .map(|c| match c {
+                '/' | '\\' | '\0' => '_',
+                ':' if cfg!(windows) => '_',
+                c => c,
+            })
+            .collect();
+        let component = format!("{name}{extension}");
+        if component.is_empty() || component == "." || component == ".." {
+            return "_".to_string();
+        }
+        component
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
         visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
-            PlaylistNode::Folder(folder) => folder
-                .children
-                .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+            PlaylistNode::Folder(folder) => folder.children.into_iter().try_for_each(|child| {
+                walk_tree(child, &path.join(path_component(&folder.name, "")), visit)
+            }),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -257,7 +276,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(path_component(&playlist.name, ".m3u"));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From fc4057e704670c5065130146101977679523099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 22/29] fix: report XML deserialization errors instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7017a43..e556df8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -375,7 +375,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From 8cca5b988a6dca7f60df3510fc3bf170384d8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 23/29] fix: report an error instead of panicking when a
 setting can not be serialized

---
 src/setting.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..9457b3c 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -22,7 +22,7 @@
 //! The `SettingData` structs implement the `Default` trait and allows you to create objects that
 //! use the same default values as found in Rekordbox 6.6.1.
 
-use binrw::{binrw, io::Cursor, BinWrite, Endian, NullString};
+use binrw::{binrw, io::Cursor, BinResult, BinWrite, Endian, NullString};
 use parse_display::Display;
 
 #[binrw]
@@ -69,7 +69,7 @@ pub struct Setting {
     /// See <https://reveng.sourceforge.io/crc-catalogue/all.htm#crc.cat.crc-16-xmodem> for
     /// details.
     #[br(temp)]
-    #[bw(calc = if no_checksum { 0 } else { self.calculate_checksum() })]
+    #[bw(try_calc = if no_checksum { Ok(0) } else { self.calculate_checksum() })]
     _checksum: u16,
     /// Unknown field (apparently always `0000`).
     #[br(temp)]
@@ -137,11 +137,10 @@ where
     /// there seems to be no other way to achieve this.
     ///
     /// Upstream issue: https://github.com/jam1garner/binrw/issues/102
-    fn calculate_checksum(&self) -> u16 {
+    fn calculate_checksum(&self) -> BinResult<u16> {
         let mut data = Vec::<u8>::with_capacity(156);
         let mut writer = Cursor::new(&mut data);
-        self.write_options(&mut writer, Endian::Little, (true,))
-            .unwrap();
+        self.write_options(&mut writer, Endian::Little, (true,))?;
         let start = match self.data {
             // In `DJMMYSETTING.DAT`, the checksum is calculated over all previous bytes, including
             // the section lengths and string data.
@@ -151,8 +150,9 @@ where
             _ => 104,
         };
 
-        let end = data.len() - 4;
-        crc16::State::<crc16::XMODEM>::calculate(&data[start..end])
+        let end = data.len().saturating_sub(4);
+        let checksummed = data.get(start..end).unwrap_or_default();
+        Ok(crc16::State::<crc16::XMODEM>::calculate(checksummed))
     }
 }
 
-- 
2.43.0


From 1c600f401b51ee7824c260fce3e7d4eeabc299d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 24/29] fix: accept empty playlists, folders and collections in
 XML files

---
 src/xml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..53366a3 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -365,6 +366,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
                                         #[serde(rename = "NODE")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -384,6 +386,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
                                         #[serde(rename = "TRACK")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -441,6 +444,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From d3a3f2f1784e824150c745c339d2a8b16b56cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 25/29] fix: the height of a tiny waveform preview column is in
 the low bits

The four high bits of these columns are always zero, so height() was always 0 and the height ended up in the unused
field.
---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 94f17f1..2554276 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -532,10 +532,10 @@ impl Default for TinyWaveformPreviewColumn {
 #[br(big, map = Self::from_bytes)]
 #[bw(big, map = |x: &TinyWaveformPreviewColumn| x.into_bytes())]
 pub struct TinyWaveformPreviewColumn {
-    #[allow(dead_code)]
-    unused: B4,
     /// Height of the Column in pixels.
     pub height: B4,
+    #[allow(dead_code)]
+    unused: B4,
 }
 
 /// Single Column value in a Waveform Color Preview.
-- 
2.43.0


From 1b2f371d96649bfc691890bf59a57e5a78f15f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 26/29] fix: read colour waveform detail columns as big-endian
 numbers with red in the top bits

Red, green, blue and height take the bits from the most significant one down, in a 16-bit big-endian value. They were
taken from the least significant bit of the first byte up, which gave none of the four.
---
 src/anlz.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2554276..b52e90c 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -572,20 +572,20 @@ impl Default for WaveformColorDetailColumn {
 /// <https://djl-analysis.deepsymmetry.org/rekordbox-export-analysis/anlz.html#color-detail>
 #[bitfield]
 #[derive(BinRead, BinWrite, Debug, PartialEq, Eq, Clone, Copy)]
-#[br(map = Self::from_bytes)]
-#[bw(big, map = |x: &WaveformColorDetailColumn| x.into_bytes())]
+#[br(big, map = |x: u16| Self::from_bytes(x.to_le_bytes()))]
+#[bw(big, map = |x: &WaveformColorDetailColumn| u16::from_le_bytes(x.into_bytes()))]
 pub struct WaveformColorDetailColumn {
-    /// Red color component.
-    pub red: B3,
-    /// Green color component.
-    pub green: B3,
-    /// Blue color component.
-    pub blue: B3,
-    /// Height of the column.
-    pub height: B5,
     /// Unknown field
     #[allow(dead_code)]
     unknown: B2,
+    /// Height of the column.
+    pub height: B5,
+    /// Blue color component.
+    pub blue: B3,
+    /// Green color component.
+    pub green: B3,
+    /// Red color component.
+    pub red: B3,
 }
 
 /// Single Column value in a Waveform 3-Band Preview.
-- 
2.43.0


From cabbb79d868782aa0a077c419bb727f311f5c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 27/29] fix: show simplified Chinese under its own name

The display attribute was placed on the wrong variant, which made the
language print as "ChineseSimplified".
---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 9457b3c..055900e 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0


From 474666eb9e652459b46ff27e4fd6d84e7dcd4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 28/29] fix: leave out absent track attributes when writing XML

They were written with an empty value, which can not be read back for
numbers and turned absent texts into empty ones.
---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 53366a3..a1044fc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -83,57 +83,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -151,19 +164,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -175,6 +192,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -184,18 +202,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From 86ed821d5bef9c5f091eea4b66fb177b4d94e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 29/29] fix: write the type of the root playlist folder

---
 src/xml.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a1044fc..fce65e4 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -321,13 +321,40 @@ pub struct PositionMark {
 }
 
 /// Playlist collection.
-#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[derive(Debug, PartialEq, Clone, Deserialize)]
 pub struct Playlists {
     /// The root node of all playlists.
     #[serde(rename = "NODE")]
     pub node: PlaylistFolderNode,
 }
 
+impl Serialize for Playlists {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        // The root folder states its type like any other node.
+        #[derive(Serialize)]
+        #[serde(tag = "@Type")]
+        enum Root<'a> {
+            #[serde(rename = "0")]
+            Folder(&'a PlaylistFolderNode),
+        }
+
+        #[derive(Serialize)]
+        struct Value<'a> {
+            #[serde(rename = "NODE")]
+            node: Root<'a>,
+        }
+
+        let value = Value {
+            node: Root::Folder(&self.node),
+        };
+
+        value.serialize(serializer)
+    }
+}
+
 /// The type of a playlist node.
 #[derive(Debug, PartialEq, Clone, Serialize)]
 #[serde(tag = "@Type")]
-- 
2.43.0

