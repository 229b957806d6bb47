From e0639b4238bbab1482e0718d24028a7e57ea7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 1/9] fix: report a stream cut inside the header size as an
 error

A stream ending after 1 to 3 bytes of the 4 byte header size (or failing with
an UnexpectedEof error) was taken for the regular end of the blob sequence.
---
 src/blob.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..6272546 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -3,7 +3,7 @@
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
 use crate::proto::fileformat;
-use byteorder::ReadBytesExt;
+use byteorder::ByteOrder;
 use protobuf::Message;
 use std::fs::File;
 use std::io::{BufReader, Read, Seek, SeekFrom};
@@ -187,23 +187,22 @@ impl<R: Read + Send> BlobReader<R> {
     }
 
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
-            Ok(n) => {
+        let mut size_buf = Vec::with_capacity(4);
+        let header_size: u64 = match self.reader.by_ref().take(4).read_to_end(&mut size_buf) {
+            // Regular end of the stream: there is no further blob.
+            Ok(0) => {
+                self.offset = None;
+                return None;
+            }
+            Ok(4) => {
                 self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
-                u64::from(n)
+                u64::from(byteorder::BigEndian::read_u32(&size_buf))
             }
-            Err(e) => {
+            // The stream ends within the header size or could not be read.
+            Ok(_) | Err(_) => {
                 self.offset = None;
-                return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
-                    _ => {
-                        self.last_blob_ok = false;
-                        Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-                    }
-                };
+                self.last_blob_ok = false;
+                return Some(Err(new_blob_error(BlobError::InvalidHeaderSize)));
             }
         };
 
-- 
2.43.0


From 19e1a0e8f9906faf69e50ff18dd14b205227b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 2/9] fix: report a stream cut between fields of a blob as an
 error

A stream ending early but right after a complete protobuf field of the blob
header or blob content was accepted as a complete (possibly empty) blob.
---
 src/blob.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 6272546..52ecdff 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -215,6 +215,16 @@ impl<R: Read + Send> BlobReader<R> {
 
         let mut reader = self.reader.by_ref().take(header_size);
         let header = match fileformat::BlobHeader::parse_from_reader(&mut reader) {
+            // The stream ended before all bytes of the header could be read.
+            Ok(_) if reader.limit() > 0 => {
+                self.offset = None;
+                self.last_blob_ok = false;
+                let io_error = ::std::io::Error::new(
+                    ::std::io::ErrorKind::UnexpectedEof,
+                    "content too short for header",
+                );
+                return Some(Err(io_error.into()));
+            }
             Ok(header) => header,
             Err(e) => {
                 self.offset = None;
@@ -277,6 +287,16 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
 
         let mut reader = self.reader.by_ref().take(header.datasize() as u64);
         let blob = match fileformat::Blob::parse_from_reader(&mut reader) {
+            // The stream ended before all bytes of the blob could be read.
+            Ok(_) if reader.limit() > 0 => {
+                self.offset = None;
+                self.last_blob_ok = false;
+                let io_error = ::std::io::Error::new(
+                    ::std::io::ErrorKind::UnexpectedEof,
+                    "content too short for block data",
+                );
+                return Some(Err(io_error.into()));
+            }
             Ok(blob) => blob,
             Err(e) => {
                 self.offset = None;
-- 
2.43.0


From 0e22d51ff69d35c04b0769736bb38be77a1efe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 3/9] fix: reject blob headers with a negative data size

Buffered readers treated the size as almost 2^64 (and overflowed the offset),
skipping readers moved backwards and could loop forever, the memory mapped
reader panicked.
---
 src/blob.rs      | 10 ++++++++++
 src/mmap_blob.rs |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 52ecdff..a0cc46b 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -233,6 +233,16 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            let io_error = ::std::io::Error::new(
+                ::std::io::ErrorKind::InvalidData,
+                "negative data size in blob header",
+            );
+            return Some(Err(io_error.into()));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..a28f918 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -219,6 +219,15 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            let io_error = ::std::io::Error::new(
+                ::std::io::ErrorKind::InvalidData,
+                "negative data size in blob header",
+            );
+            return Some(Err(io_error.into()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From 5189e3336dc54fa22746bf2a5814160516173b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 4/9] fix: stop iterating over memory mapped blobs after an
 error

The iterator recorded the error but returned the same error forever. Seeking
to another position starts a new iteration.
---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index a28f918..512226f 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         let slice = &self.mmap.as_slice()[self.offset..];
 
         match slice.len() {
-- 
2.43.0


From 9de53ddc5095cb39bbf7df08941383126d602a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 5/9] fix: do not panic after seeking past the end of a memory
 map

---
 src/mmap_blob.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 512226f..b2e970b 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -188,7 +188,8 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             return None;
         }
 
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // A position past the end is the end of the iteration, just like the end itself.
+        let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 15021cb866932d228cae0eb5c985ead55367954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 6/9] fix: make blobs readable again after seeking away from an
 error

Iteration stops after an error, but a successful seek starts at a new position:
without this, one damaged blob (or one failed read) made blob_from_offset fail
for every intact blob, and iteration after a seek end silently.
---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index a0cc46b..3620035 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -405,6 +405,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -419,6 +420,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 323ac9b5b6bcb686d24eab8eb3c6107ed46fb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 7/9] fix: do not keep a partial index if index creation fails

A later call took the partial index for a complete one and returned Ok without
visiting the blobs after the failure.
---
 src/indexed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..a5fe5bb 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Only store a complete index: a partial one would hide blobs from later calls.
+        let mut index = vec![];
+
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,13 +164,15 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
+
         Ok(())
     }
 
-- 
2.43.0


From de26b00b0f29e6b26e3d060cbd2b1e1844ae5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 8/9] fix: reject too big zlib compressed blobs instead of
 shortening them

Content of MAX_BLOB_MESSAGE_SIZE or more was cut off at the limit, which was
not noticed if the cut was between two fields. Now handled like raw content.
---
 src/blob.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 3620035..27bbe10 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -493,7 +493,14 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let result = T::parse_from_reader(&mut decoder);
+        // The content was cut off at the limit, even if the first part could be parsed.
+        if decoder.limit() == 0 {
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        result.map_err(|e| new_protobuf_error(e, "blob zlib data"))
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From ab965d1e81b99bcb66b006c53e65d06ce3f2c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 9/9] fix: do not panic on overflow of decoded values in debug
 builds

Sums of deltas, coordinates and timestamps of a malformed file can exceed 64
(or 32) bits. They wrapped around in release builds but panicked in builds
with overflow checks.
---
 src/dense.rs    | 25 +++++++++++++++----------
 src/elements.rs | 32 +++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index 577e327..7702c62 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -39,7 +39,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        self.block
+            .lat_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.lat))
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +56,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        self.block
+            .lon_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.lon))
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +150,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +227,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +301,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..68b3c72 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -87,7 +87,9 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        self.block
+            .lat_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lat()))
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +104,9 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        self.block
+            .lon_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lon()))
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +339,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +408,17 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: self
+                        .block
+                        .lat_offset()
+                        .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.clat)),
+                    lon: self
+                        .block
+                        .lon_offset()
+                        .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.clon)),
                 })
             }
             _ => None,
@@ -491,7 +501,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
-                self.current_member_id += *mem_id_delta;
+                self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
@@ -583,7 +593,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0

