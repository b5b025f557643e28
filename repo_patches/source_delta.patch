From 0049750157bd6e1fdb601a92e2142654451ada8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 01/33] fix: LJPEG and bit readers return an error past the end
 of data

Truncated lossless JPEG data indexed out of bounds and panicked. A failed
get_bits() on a bit reader still consumed the bits, which underflows the
count of the bits left.
---
 src/decompress/bit_reader.rs | 29 +++++++++-------
 src/decompress/ljpeg.rs      | 64 ++++++++++++++++++------------------
 2 files changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..a141ece 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
@@ -173,17 +173,20 @@ impl<'a> LJpegBitReader<'a> {
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = *self
+            .buffer
+            .get(self.pos)
+            .ok_or_else(|| Error::Decompression("LJPEG: Unexpected end of data.".into()))?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
-        self.pos += 2;
-        b
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let hi = self.read_u8()?;
+        let lo = self.read_u8()?;
+        Ok(BigEndian::read_u16(&[hi, lo]))
     }
 
     /// Skip `seek` bytes.
@@ -201,10 +204,14 @@ impl<'a> LJpegBitReader<'a> {
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
+            if self.pos >= self.buffer.len() && self.bits_left >= nbits {
+                // End of the data, but there are enough bits left.
+                break;
+            }
+            let mut c = self.read_u8()?;
             // If it's 0xFF, check and discard stuffed zero byte
             if c == 0xff {
-                let c2 = self.read_u8();
+                let c2 = self.read_u8()?;
                 if c2 != 0 {
                     // Oops, it's actually a marker indicating end of
                     // compressed data.  Better put it back for use later.
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..3c9d97f 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -281,8 +281,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -515,18 +515,18 @@ impl LJpeg {
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -936,11 +936,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -967,11 +967,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -979,9 +979,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -994,7 +994,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -1003,7 +1003,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -1011,7 +1011,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1026,14 +1026,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1044,16 +1044,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1063,12 +1063,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1077,8 +1077,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1100,9 +1100,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
-- 
2.43.0


From 1c8cdb6df4c6f45b13143d4f86907777e48565f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 02/33] fix: TIFF entry without enough data has no value

Reading a value, or an array, from an entry whose data is shorter than
its type and count say panicked, and so did a RATIONAL with a zero
denominator read as an integer. The integer value of a RATIONAL also
ignored the index.
---
 src/tiff/entry.rs | 69 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..be22ba0 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -124,6 +124,35 @@ impl Entry {
         self.data.as_slice()
     }
 
+    /// Get the bytes of the value at `index`. `None` if the entry
+    /// doesn't have the data for it.
+    fn value_slice<T>(&self, index: usize) -> Option<&[u8]>
+    where
+        T: ExifValue,
+    {
+        let data = self.data.as_slice();
+        let start = T::unit_size().checked_mul(index)?;
+        let slice = if T::is_array() {
+            data.get(start..)
+        } else {
+            data.get(start..start.checked_add(T::unit_size())?)
+        };
+        if slice.is_none() {
+            log::error!("Entry {:x} doesn't have data at {}", self.id, index);
+        }
+        slice
+    }
+
+    /// Check that the entry has the data for `count` values of
+    /// `unit_size` bytes.
+    fn has_data_for(&self, count: usize, unit_size: usize) -> bool {
+        let has_data = count <= self.data.as_slice().len() / unit_size;
+        if !has_data {
+            log::error!("Entry {:x} doesn't have data for {}", self.id, count);
+        }
+        has_data
+    }
+
     /// monomorphic implementation of `load_data<E>`
     fn load_data_impl(&self, offset: u64, view: &mut View) -> Result<Vec<u8>> {
         let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
@@ -188,9 +217,7 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            return self.value_slice::<T>(index as usize).map(T::read::<E>);
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -215,13 +242,13 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::Short => Some(u16::read::<E>(
-                    &self.data.as_slice()[u16::unit_size() * index as usize..],
-                ) as u32),
-                TagType::Long => Some(u32::read::<E>(
-                    &self.data.as_slice()[u32::unit_size() * index as usize..],
-                )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Short => self
+                    .value_slice::<u16>(index as usize)
+                    .map(|slice| u16::read::<E>(slice) as u32),
+                TagType::Long => self.value_slice::<u32>(index as usize).map(u32::read::<E>),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .map(|r| (&r).into()),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -242,12 +269,10 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::SShort => Some(i16::read::<E>(
-                    &self.data.as_slice()[i16::unit_size() * index as usize..],
-                ) as i32),
-                TagType::SLong => Some(i32::read::<E>(
-                    &self.data.as_slice()[i32::unit_size() * index as usize..],
-                )),
+                TagType::SShort => self
+                    .value_slice::<i16>(index as usize)
+                    .map(|slice| i16::read::<E>(slice) as i32),
+                TagType::SLong => self.value_slice::<i32>(index as usize).map(i32::read::<E>),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
@@ -326,6 +351,9 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if !self.has_data_for(count, unit_size) {
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -381,6 +409,9 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if !self.has_data_for(count, unit_size) {
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -421,6 +452,9 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if !self.has_data_for(count, unit_size) {
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -459,6 +493,9 @@ impl Entry {
         if !T::is_array()
             && ((self.type_ == T::exif_type() as i16) || (self.type_ == TagType::Undefined as i16))
         {
+            if !self.has_data_for(count, T::unit_size()) {
+                return None;
+            }
             let mut values = Vec::with_capacity(count);
             for index in 0..count {
                 let slice = &data_slice[T::unit_size() * index..];
-- 
2.43.0


From e596a285758474958b3f5372fd6c9758c23d9522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 03/33] fix: buffers loaded past the end of the file have no
 garbage

A failed seek, or read, left the buffer uninitialized, and a thumbnail
located past the end of the file underflowed its length.
---
 src/container.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 31cee69..aab9b81 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -29,8 +29,8 @@ use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, ReadBytesExt};
 use crate::io::View;
 use crate::metadata;
 use crate::thumbnail::{Data, ThumbDesc, Thumbnail};
-use crate::Result;
 use crate::Type as RawType;
+use crate::{Error, Result};
 
 /// Endian of the container
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -113,7 +113,11 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
-                if offset.offset + len > view.len() {
+                if offset.offset > view.len() {
+                    log::error!("Thumbnail offset {:?} is past EOF.", offset);
+                    return Err(Error::FormatError);
+                }
+                if len > view.len() - offset.offset {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
                     // It seems to work. Worst case scenario it still doesn't.
@@ -148,6 +152,7 @@ pub trait RawContainer {
         let mut view = self.borrow_view_mut();
         if view.seek(SeekFrom::Start(offset)).is_err() {
             log::error!("load_buffer8: Seek failed");
+            return vec![];
         }
         if let Ok(n) = view.read(data.as_mut_slice()) {
             if n < len as usize {
@@ -156,6 +161,7 @@ pub trait RawContainer {
             }
         } else {
             log::error!("load_buffer8: read failed");
+            data.clear();
         }
 
         data
@@ -185,10 +191,12 @@ fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
 where
     E: ByteOrder,
 {
-    let mut data = uninit_vec!((len / 2) as usize);
+    // A short read must not leave anything uninitialized.
+    let mut data = vec![0; (len / 2) as usize];
 
     if let Err(err) = view.seek(SeekFrom::Start(offset)) {
         log::error!("load_buffer16: Seek failed: {err}");
+        return data;
     }
 
     if let Err(err) = view.read_u16_into::<E>(&mut data) {
-- 
2.43.0


From 58d6eec79c9bc47146cf0ea65ba6c1d3370f1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 04/33] fix: seeking before the start of a view is an error

It underflowed the position.
---
 src/io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 0d66a98..1d3d8a3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -275,7 +275,10 @@ impl std::io::Seek for View {
             }
             _ => pos,
         })
-        .map(|i| i - self.offset)
+        .and_then(|i| {
+            i.checked_sub(self.offset)
+                .ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidInput))
+        })
     }
 }
 
-- 
2.43.0


From 62fc97521b1c34d5349b64676192dd1db9c26f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 05/33] verif: guarded hooks for the checks

---
 src/lib.rs   |   3 +
 src/verif.rs | 286 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 289 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 875628d..c2410b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,6 +77,9 @@ mod sigma;
 mod sony;
 mod thumbnail;
 pub mod tiff;
+#[cfg(libopenraw_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 pub use bitmap::Bitmap;
 pub use colour::ColourSpace;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..4e270e2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,286 @@
+// SPDX-License-Identifier: LGPL-3.0-or-later
+
+//! Verification hooks. Plain wrappers that let an external checking
+//! harness call crate private functions.
+//!
+//! Never part of a normal build: this needs `--cfg libopenraw_verif`, and
+//! each group `--cfg libopenraw_verif="GROUP"`.
+
+#[cfg(libopenraw_verif = "unpack")]
+pub mod unpack {
+    use crate::container::Endian;
+    use crate::tiff::Compression;
+    use crate::Result;
+
+    /// Unpack packed samples from a reader.
+    pub fn unpack_from_reader(
+        reader: &mut dyn std::io::Read,
+        size: (u32, u32),
+        bpc: u16,
+        compression: Compression,
+        byte_len: usize,
+        big_endian: bool,
+    ) -> Result<Vec<u16>> {
+        crate::decompress::unpack_from_reader(
+            reader,
+            size.0,
+            size.1,
+            bpc,
+            compression,
+            byte_len,
+            if big_endian {
+                Endian::Big
+            } else {
+                Endian::Little
+            },
+        )
+    }
+}
+
+#[cfg(libopenraw_verif = "bits")]
+pub mod bits {
+    use crate::decompress::bit_reader::{
+        BitReader, BitReaderBe32, BitReaderLe32, LJpegBitReader,
+    };
+    use crate::Result;
+
+    pub struct Be32<R>(BitReaderBe32<R>);
+
+    impl<R: std::io::Read> Be32<R> {
+        pub fn new(reader: R) -> Self {
+            Be32(BitReaderBe32::new(reader))
+        }
+
+        pub fn peek(&mut self, nbits: u8) -> Result<u16> {
+            self.0.peek(nbits)
+        }
+
+        pub fn get_bits(&mut self, nbits: u8) -> Result<u16> {
+            self.0.get_bits(nbits)
+        }
+
+        pub fn consume_zerobits(&mut self) -> u32 {
+            self.0.consume_zerobits()
+        }
+    }
+
+    pub struct Le32<R>(BitReaderLe32<R>);
+
+    impl<R: std::io::Read + std::io::Seek> Le32<R> {
+        pub fn new(reader: R) -> Self {
+            Le32(BitReaderLe32::new(reader))
+        }
+
+        pub fn peek(&mut self, nbits: u8) -> Result<u16> {
+            self.0.peek(nbits)
+        }
+
+        pub fn get_bits(&mut self, nbits: u8) -> Result<u16> {
+            self.0.get_bits(nbits)
+        }
+    }
+
+    pub struct Jpeg<'a>(LJpegBitReader<'a>);
+
+    impl<'a> Jpeg<'a> {
+        pub fn new(buffer: &'a [u8]) -> Self {
+            Jpeg(LJpegBitReader::new(buffer))
+        }
+
+        pub fn peek(&mut self, nbits: u8) -> Result<u16> {
+            self.0.peek(nbits)
+        }
+
+        pub fn get_bits(&mut self, nbits: u8) -> Result<u16> {
+            self.0.get_bits(nbits)
+        }
+    }
+}
+
+#[cfg(libopenraw_verif = "entry")]
+pub mod entry {
+    use byteorder::{BigEndian, LittleEndian};
+
+    use crate::container::Endian;
+    use crate::tiff::exif::ExifValue;
+    use crate::tiff::Entry;
+
+    pub fn endian(big: bool) -> Endian {
+        if big {
+            Endian::Big
+        } else {
+            Endian::Little
+        }
+    }
+
+    /// An IFD entry.
+    pub struct E(Entry);
+
+    impl E {
+        pub fn inline(typ: i16, count: u32, data: [u8; 4]) -> E {
+            E(Entry::new(1, typ, count, data))
+        }
+
+        pub fn with_data(typ: i16, count: u32, data: Vec<u8>) -> E {
+            E(Entry::new_with_data(1, typ, count, data))
+        }
+
+        /// One typed value.
+        pub fn value_at<T: ExifValue>(&self, index: u32, big: bool) -> Option<T> {
+            if big {
+                self.0.value_at_index::<T, BigEndian>(index)
+            } else {
+                self.0.value_at_index::<T, LittleEndian>(index)
+            }
+        }
+
+        pub fn uint(&self, big: bool) -> Option<u32> {
+            if big {
+                self.0.uint_value::<BigEndian>()
+            } else {
+                self.0.uint_value::<LittleEndian>()
+            }
+        }
+
+        pub fn int(&self, big: bool) -> Option<i32> {
+            if big {
+                self.0.int_value::<BigEndian>()
+            } else {
+                self.0.int_value::<LittleEndian>()
+            }
+        }
+
+        pub fn string(&self) -> Option<String> {
+            self.0.string_value()
+        }
+
+        pub fn uints(&self, big: bool) -> Option<Vec<u32>> {
+            self.0.uint_value_array(endian(big))
+        }
+
+        pub fn ints(&self, big: bool) -> Option<Vec<i32>> {
+            self.0.int_value_array(endian(big))
+        }
+
+        pub fn floats(&self, big: bool) -> Option<Vec<f64>> {
+            self.0.float_value_array(endian(big))
+        }
+
+        /// An array of typed values.
+        pub fn values<T: ExifValue>(&self, big: bool) -> Option<Vec<T>> {
+            self.0.value_array::<T>(endian(big))
+        }
+    }
+}
+
+#[cfg(libopenraw_verif = "io")]
+pub mod io {
+    use std::cell::{RefCell, RefMut};
+    use std::io::{Read, Seek, SeekFrom};
+    use std::rc::Rc;
+
+    use crate::container::RawContainer;
+    use crate::io::{View, Viewer};
+    use crate::rawfile::ReadAndSeek;
+    use crate::thumbnail::{Data, DataOffset, ThumbDesc};
+    use crate::Result;
+
+    /// A view and what keeps it alive.
+    pub struct Window {
+        viewer: Rc<Viewer>,
+        view: View,
+    }
+
+    impl Window {
+        /// The whole of `inner`, or from an offset.
+        pub fn new(inner: Box<dyn ReadAndSeek>, length: u64, offset: u64) -> Result<Window> {
+            let viewer = Viewer::new(inner, length);
+            let view = Viewer::create_view(&viewer, offset)?;
+            Ok(Window { viewer, view })
+        }
+
+        pub fn sub(&self, offset: u64) -> Result<Window> {
+            let view = Viewer::create_subview(&self.view, offset)?;
+            Ok(Window {
+                viewer: self.viewer.clone(),
+                view,
+            })
+        }
+
+        pub fn length(&self) -> u64 {
+            self.view.len()
+        }
+
+        pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+            self.view.read(buf)
+        }
+
+        pub fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+            self.view.seek(pos)
+        }
+
+        pub fn u16s(&mut self, arr: &mut [u16], big: bool) -> std::io::Result<()> {
+            self.view.read_endian_u16_array(arr, endian(big))
+        }
+
+        pub fn u32s(&mut self, arr: &mut [u32], big: bool) -> std::io::Result<()> {
+            self.view.read_endian_u32_array(arr, endian(big))
+        }
+    }
+
+    fn endian(big: bool) -> crate::container::Endian {
+        if big {
+            crate::container::Endian::Big
+        } else {
+            crate::container::Endian::Little
+        }
+    }
+
+    /// A minimal raw container.
+    pub struct Loader {
+        _viewer: Rc<Viewer>,
+        view: RefCell<View>,
+    }
+
+    impl Loader {
+        pub fn new(inner: Box<dyn ReadAndSeek>, length: u64) -> Result<Loader> {
+            let viewer = Viewer::new(inner, length);
+            let view = Viewer::create_view(&viewer, 0)?;
+            Ok(Loader {
+                _viewer: viewer,
+                view: RefCell::new(view),
+            })
+        }
+
+        pub fn buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
+            self.load_buffer8(offset, len)
+        }
+
+        pub fn buffer16(&self, offset: u64, len: u64, big: bool) -> Vec<u16> {
+            if big {
+                self.load_buffer16_be(offset, len)
+            } else {
+                self.load_buffer16_le(offset, len)
+            }
+        }
+
+        pub fn thumbnail(&self, offset: u64, len: u64) -> Result<crate::Thumbnail> {
+            self.make_thumbnail(&ThumbDesc {
+                width: 1,
+                height: 1,
+                data_type: crate::DataType::Jpeg,
+                data: Data::Offset(DataOffset { offset, len }),
+            })
+        }
+    }
+
+    impl RawContainer for Loader {
+        fn raw_type(&self) -> crate::Type {
+            crate::Type::Unknown
+        }
+
+        fn borrow_view_mut(&self) -> RefMut<'_, View> {
+            self.view.borrow_mut()
+        }
+    }
+}
-- 
2.43.0


From b6b841e35121a6fb417d9baa4fabf1700f99e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 06/33] verif: bit readers hook, file hook

---
 src/decompress/bit_reader.rs | 13 +++++++++----
 src/verif.rs                 | 24 +++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index a141ece..a08325d 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -19,8 +19,13 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+#[cfg(not(libopenraw_verif = "unbuffered"))]
+use std::io::BufReader;
+
 use byteorder::{BigEndian, ByteOrder, LittleEndian, ReadBytesExt};
 
+#[cfg(libopenraw_verif = "unbuffered")]
+use crate::verif::unbuffered::BufReader;
 use crate::{Error, Result};
 
 const BITS_PER_LONG: u8 = 8 * std::mem::size_of::<i32>() as u8;
@@ -73,7 +78,7 @@ pub(crate) trait BitReader {
 /// Load bits from Big Endian 32bits.
 // XXX make this a generic on ByteOrder
 pub(crate) struct BitReaderBe32<R> {
-    reader: std::io::BufReader<R>,
+    reader: BufReader<R>,
     bits_left: u8,
     bits: u64,
 }
@@ -81,7 +86,7 @@ pub(crate) struct BitReaderBe32<R> {
 impl<R: std::io::Read> BitReaderBe32<R> {
     pub fn new(reader: R) -> BitReaderBe32<R> {
         BitReaderBe32 {
-            reader: std::io::BufReader::new(reader),
+            reader: BufReader::new(reader),
             bits_left: 0,
             bits: 0,
         }
@@ -107,7 +112,7 @@ impl<R: std::io::Read> BitReader for BitReaderBe32<R> {
 
 /// Load bits from Little Endian 32bits.
 pub(crate) struct BitReaderLe32<R> {
-    reader: std::io::BufReader<R>,
+    reader: BufReader<R>,
     bits_left: u8,
     bits: u64,
 }
@@ -115,7 +120,7 @@ pub(crate) struct BitReaderLe32<R> {
 impl<R: std::io::Read> BitReaderLe32<R> {
     pub fn new(reader: R) -> BitReaderLe32<R> {
         BitReaderLe32 {
-            reader: std::io::BufReader::new(reader),
+            reader: BufReader::new(reader),
             bits_left: 0,
             bits: 0,
         }
diff --git a/src/verif.rs b/src/verif.rs
index 4e270e2..76973da 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -6,6 +6,28 @@
 //! Never part of a normal build: this needs `--cfg libopenraw_verif`, and
 //! each group `--cfg libopenraw_verif="GROUP"`.
 
+#[cfg(libopenraw_verif = "unbuffered")]
+pub mod unbuffered {
+    /// Stands for `std::io::BufReader` in a model: it reads the same bytes.
+    pub struct BufReader<R>(R);
+
+    impl<R> BufReader<R> {
+        pub fn new(inner: R) -> Self {
+            BufReader(inner)
+        }
+    }
+
+    impl<R: std::io::Read> std::io::Read for BufReader<R> {
+        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+            self.0.read(buf)
+        }
+
+        fn read_exact(&mut self, buf: &mut [u8]) -> std::io::Result<()> {
+            self.0.read_exact(buf)
+        }
+    }
+}
+
 #[cfg(libopenraw_verif = "unpack")]
 pub mod unpack {
     use crate::container::Endian;
@@ -181,7 +203,7 @@ pub mod io {
 
     use crate::container::RawContainer;
     use crate::io::{View, Viewer};
-    use crate::rawfile::ReadAndSeek;
+    pub use crate::rawfile::ReadAndSeek;
     use crate::thumbnail::{Data, DataOffset, ThumbDesc};
     use crate::Result;
 
-- 
2.43.0


From f2f1ffe042112edcc0d46371728666784f1749d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:02 +0000
Subject: [PATCH 07/33] fix: a pixel past the edge of an image buffer is None

---
 src/bitmap.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..b752ada 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,13 +66,13 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let cc = self.cc as usize;
+        let pos = (y as usize * self.width as usize + x as usize) * cc;
 
-        Some(pixel.to_vec())
+        self.data.get(pos..pos + cc).map(|pixel| pixel.to_vec())
     }
 
     #[inline]
-- 
2.43.0


From 56ec68641e1672caca9e2820fe5acb61c95229e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:20 +0000
Subject: [PATCH 08/33] fix: linearization with a white level below the black,
 or a value past the table

---
 src/rawimage.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..f85c668 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -427,7 +427,7 @@ impl RawImage {
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
-        let range = (white - black) as f64;
+        let range = white as f64 - black as f64;
         let table = if self
             .linearization_table
             .as_ref()
@@ -443,13 +443,17 @@ impl RawImage {
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                table
+                    .and_then(|t| t.get(*v as usize))
+                    .map(|v| *v as f64)
+                    .unwrap_or_else(|| {
+                        if *v < black {
+                            0.0
+                        } else {
+                            (*v - black) as f64
+                        }
+                    })
+                    / range
             })
             .collect();
 
-- 
2.43.0


From e3f0ea64d29c150ffd419914fb78c09a050c81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 09/33] fix: demosaicing an image that is too small is an error

---
 src/render/demosaic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..408aa89 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,11 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 3 || input.height < 3 || input.data.len() < input.width as usize * input.height as usize {
+        log::error!("Image too small to demosaic");
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
@@ -165,7 +170,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.resize(3 * out_w as usize * out_h as usize, 0.0);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
-- 
2.43.0


From 828a8ed7463821b2d5d7340a05ab3c0346d50693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 10/33] fix: an Exif CFA pattern without enough data is no
 pattern

---
 src/tiff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..ce9d37e 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -179,14 +179,14 @@ fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
     }
     let data = entry.data();
 
-    let h = data[0];
-    let v = data[1];
+    let h = *data.first()?;
+    let v = *data.get(1)?;
     if h != 2 && v != 2 {
         log::error!("Invalid CFA pattern size {}x{}", h, v);
         return None;
     }
 
-    Pattern::try_from(&data[4..=7]).ok()
+    Pattern::try_from(data.get(4..=7)?).ok()
 }
 
 fn get_mosaic_info(dir: &Dir) -> Option<Pattern> {
-- 
2.43.0


From 75cf913d2e512a7395b024aaf132ed14a5c1baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:24 +0000
Subject: [PATCH 11/33] fix: white level of 32 bits per sample TIFF

---
 src/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index ce9d37e..82246df 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -441,7 +441,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
+        let white: u64 = (1_u64 << actual_bpc) - 1;
         rawdata.set_whites([white as u16; 4]);
     }
 
-- 
2.43.0


From cb91db9c04b3944247705af627ba64ac47c9a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 12/33] verif: demosaic and linearize hooks

---
 src/rawimage.rs | 10 ++++++++++
 src/verif.rs    | 25 +++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index f85c668..15547bd 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -605,6 +605,16 @@ impl RawImage {
     }
 }
 
+#[cfg(libopenraw_verif = "linearize")]
+impl RawImage {
+    /// Linearize samples with the levels of the image.
+    pub fn verif_linearize(&self, data: Vec<u16>, width: u32, height: u32) -> Vec<u16> {
+        self.linearize(ImageBuffer::with_data(data, width, height, 16, 1))
+            .into_u16()
+            .data
+    }
+}
+
 impl Bitmap for RawImage {
     fn data_type(&self) -> DataType {
         self.data_type
diff --git a/src/verif.rs b/src/verif.rs
index 76973da..91b813f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -306,3 +306,28 @@ pub mod io {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "demosaic")]
+pub mod demosaic {
+    use crate::bitmap::ImageBuffer;
+    use crate::mosaic::Pattern;
+    use crate::Result;
+
+    /// The public face of an image buffer.
+    pub struct Buffer {
+        pub data: Vec<f64>,
+        pub width: u32,
+        pub height: u32,
+        pub cc: u32,
+    }
+
+    pub fn bimedian(data: Vec<f64>, width: u32, height: u32, pattern: &Pattern) -> Result<Buffer> {
+        let input = ImageBuffer::with_data(data, width, height, 16, 1);
+        crate::render::demosaic::bimedian(&input, pattern).map(|o| Buffer {
+            data: o.data,
+            width: o.width,
+            height: o.height,
+            cc: o.cc,
+        })
+    }
+}
-- 
2.43.0


From 3f0c67fd93830f92ab4072d26b3d36049ca4c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 13/33] verif: hooks of Canon, Sony, Nikon, Panasonic, Pentax

---
 src/canon.rs                | 14 +++++++++++++
 src/nikon.rs                | 40 +++++++++++++++++++++++++++++++++++++
 src/panasonic/decompress.rs | 13 ++++++++++++
 src/pentax.rs               |  3 +++
 src/pentax/decompress.rs    | 19 ++++++++++++++++++
 src/sony.rs                 |  7 +++++++
 src/verif.rs                | 15 ++++++++++++++
 7 files changed, 111 insertions(+)

diff --git a/src/canon.rs b/src/canon.rs
index 884aa7a..63399f9 100644
--- a/src/canon.rs
+++ b/src/canon.rs
@@ -489,3 +489,17 @@ impl SensorInfo {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "canon")]
+pub mod verif {
+    use super::{AspectInfo, SensorInfo};
+    use crate::{AspectRatio, Rect};
+
+    pub fn aspect_info(values: Vec<u32>) -> Option<(Option<AspectRatio>, Rect)> {
+        AspectInfo::parse(values).map(|i| (i.0, i.1))
+    }
+
+    pub fn sensor_info(values: Vec<u16>) -> Option<Rect> {
+        SensorInfo::parse(values).map(|i| i.0)
+    }
+}
diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..f1323dc 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -724,3 +724,43 @@ impl Dump for NefFile {
 }
 
 dumpfile_impl!(NefFile);
+
+#[cfg(libopenraw_verif = "nikon")]
+pub mod verif {
+    use super::diffiterator::{self, CfaIterator, DiffIterator};
+    use crate::Result;
+
+    /// The differences of a stream.
+    pub struct Diffs<'a>(DiffIterator<'a>);
+
+    impl<'a> Diffs<'a> {
+        pub fn lossy12(bytes: &'a [u8]) -> Self {
+            Diffs(DiffIterator::new(&diffiterator::LOSSY_12BIT, bytes))
+        }
+
+        pub fn lossy14(bytes: &'a [u8]) -> Self {
+            Diffs(DiffIterator::new(&diffiterator::LOSSY_14BIT, bytes))
+        }
+
+        pub fn lossless14(bytes: &'a [u8]) -> Self {
+            Diffs(DiffIterator::new(&diffiterator::LOSSLESS_14BIT, bytes))
+        }
+
+        pub fn get(&mut self) -> Result<i32> {
+            self.0.get()
+        }
+    }
+
+    /// The samples of a stream.
+    pub struct Samples<'a>(CfaIterator<'a>);
+
+    impl<'a> Samples<'a> {
+        pub fn new(diffs: Diffs<'a>, columns: usize, init: [[u16; 2]; 2]) -> Self {
+            Samples(CfaIterator::new(diffs.0, columns, init))
+        }
+
+        pub fn get(&mut self) -> Result<u16> {
+            self.0.get()
+        }
+    }
+}
diff --git a/src/panasonic/decompress.rs b/src/panasonic/decompress.rs
index 12aa38f..bfb1761 100644
--- a/src/panasonic/decompress.rs
+++ b/src/panasonic/decompress.rs
@@ -197,6 +197,19 @@ pub(super) fn panasonic_raw1(data: &[u8]) -> Result<Vec<u16>> {
     }
 }
 
+#[cfg(libopenraw_verif = "panasonic")]
+pub mod verif {
+    use super::ReverseBits;
+
+    pub fn decode_chunk(bytes: [u8; 16]) -> [u16; 14] {
+        super::decode_chunk(ReverseBits(bytes))
+    }
+
+    pub fn get_chunk(data: &[u8], index: usize) -> [u8; 16] {
+        super::block_get_chunk(data, index)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..8d47c5b 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -41,6 +41,9 @@ use crate::{
 
 mod decompress;
 
+#[cfg(libopenraw_verif = "pentax")]
+pub use decompress::verif;
+
 #[macro_export]
 macro_rules! pentax {
     ($id:expr, $model:ident) => {
diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..7690799 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -32,7 +32,10 @@ use std::io::BufRead;
 use crate::container::Endian;
 use crate::Result;
 
+#[cfg(not(libopenraw_verif = "small_cache"))]
 const DECODE_CACHE_BITS: u32 = 13;
+#[cfg(libopenraw_verif = "small_cache")]
+const DECODE_CACHE_BITS: u32 = 4;
 
 pub(super) fn decompress(
     src: &[u8],
@@ -316,3 +319,19 @@ impl BitPump for BitPumpMSB<'_> {
         self.bits &= (1 << self.nbits) - 1;
     }
 }
+
+#[cfg(libopenraw_verif = "pentax")]
+pub mod verif {
+    use crate::container::Endian;
+    use crate::Result;
+
+    pub fn decompress(
+        src: &[u8],
+        table: Option<(&[u8], bool)>,
+        width: usize,
+        height: usize,
+    ) -> Result<Vec<u16>> {
+        let table = table.map(|(t, big)| (t, if big { Endian::Big } else { Endian::Little }));
+        super::decompress(src, table, width, height)
+    }
+}
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..a36a6b7 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1197,3 +1197,10 @@ impl Dump for ArwFile {
 }
 
 dumpfile_impl!(ArwFile);
+
+#[cfg(libopenraw_verif = "sony")]
+pub mod verif {
+    pub fn decipher(data: &mut [u8]) {
+        super::ArwFile::decipher(data)
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
index 91b813f..74b02e9 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -331,3 +331,18 @@ pub mod demosaic {
         })
     }
 }
+
+#[cfg(libopenraw_verif = "canon")]
+pub use crate::canon::verif as canon;
+
+#[cfg(libopenraw_verif = "sony")]
+pub use crate::sony::verif as sony;
+
+#[cfg(libopenraw_verif = "nikon")]
+pub use crate::nikon::verif as nikon;
+
+#[cfg(libopenraw_verif = "panasonic")]
+pub use crate::panasonic::decompress::verif as panasonic;
+
+#[cfg(libopenraw_verif = "pentax")]
+pub use crate::pentax::verif as pentax;
-- 
2.43.0


From 3a5560ac82b2dafad553ca6a326482561ad48ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 14/33] fix: malformed Huffman table or size of Pentax
 compressed data is an error

---
 src/pentax/decompress.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 7690799..6cb13ed 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 #[cfg(not(libopenraw_verif = "small_cache"))]
 const DECODE_CACHE_BITS: u32 = 13;
@@ -43,6 +43,10 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
+    // Samples are in pairs.
+    if width < 2 || width % 2 != 0 {
+        return Err(Error::InvalidFormat);
+    }
     let mut out = vec![0_u16; width * height];
     let mut htable = HuffTable::default();
 
@@ -61,7 +65,12 @@ pub(super) fn decompress(
 
         let mut v1 = [0_u32; 16];
         let pos = cursor.position() as usize;
-        for (i, value) in huff[pos..].iter().enumerate().take(depth) {
+        let lengths = huff.get(pos..pos + depth).ok_or(Error::UnexpectedEOF)?;
+        for (i, value) in lengths.iter().enumerate() {
+            // The codes are left aligned on 12 bits.
+            if *value == 0 || *value > 12 {
+                return Err(Error::FormatError);
+            }
             v1[i] = *value as u32;
         }
 
@@ -165,6 +174,10 @@ impl HuffTable {
         for len in 0..self.nbits {
             for _ in 0..self.bits[len as usize + 1] {
                 for _ in 0..(1 << (self.nbits - len - 1)) {
+                    if h >= self.hufftable.len() {
+                        // More codes than there can be.
+                        return Err(Error::FormatError);
+                    }
                     self.hufftable[h] = (len as u8 + 1, self.huffval[pos] as u8);
                     h += 1;
                 }
-- 
2.43.0


From fa426595d0e4cfc50dfbf86de3afe0cace90f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 15/33] fix: Pentax decompression reads the last bytes of the
 data

---
 src/pentax/decompress.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 6cb13ed..da671e8 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -314,8 +314,12 @@ impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
+            let inbits = if self.pos + 4 > self.buffer.len() {
+                // Less than 4 bytes left: the missing ones are 0.
+                let mut last = [0_u8; 4];
+                let left = self.buffer.get(self.pos..).unwrap_or(&[]);
+                last[..left.len()].copy_from_slice(left);
+                Endian::Big.read_u32(&last) as u64
             } else {
                 Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
             };
-- 
2.43.0


From d0797df41d7c790cc31f546c7289b5ab3f2009a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:38 +0000
Subject: [PATCH 16/33] verif: Nikon hook takes a table

---
 src/nikon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nikon.rs b/src/nikon.rs
index f1323dc..3ff24f3 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -746,6 +746,10 @@ pub mod verif {
             Diffs(DiffIterator::new(&diffiterator::LOSSLESS_14BIT, bytes))
         }
 
+        pub fn with_table(table: &'static [(bool, u32)], bytes: &'a [u8]) -> Self {
+            Diffs(DiffIterator::new(table, bytes))
+        }
+
         pub fn get(&mut self) -> Result<i32> {
             self.0.get()
         }
-- 
2.43.0


From 8d4d05a1f636ad88766c715ecb1f6e911de46297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:08 +0000
Subject: [PATCH 17/33] verif: Pentax small table hook

---
 src/pentax/decompress.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index da671e8..03ec1e2 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -96,10 +96,13 @@ pub(super) fn decompress(
         }
     } else {
         // Initialize with legacy data
+        #[cfg(not(libopenraw_verif = "pentax_tree"))]
         let pentax_tree: [u8; 29] = [
             0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11,
             12,
         ];
+        #[cfg(libopenraw_verif = "pentax_tree")]
+        let pentax_tree: [u8; 20] = [1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 0, 3];
         let mut acc: usize = 0;
         for (i, value) in pentax_tree.iter().enumerate().take(16) {
             htable.bits[i + 1] = *value as u32;
-- 
2.43.0


From 0261fa17861be4674c0ef4f039fc2b16908700ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 18/33] fix: malformed slices of CR2 LJPEG data

---
 src/decompress/ljpeg.rs         | 4 ++++
 src/decompress/sliced_buffer.rs | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 3c9d97f..4533084 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -154,6 +154,10 @@ impl LJpeg {
 
     /// Set the slices for Canon CR2.
     pub fn set_slices(&mut self, slices: &[u32]) {
+        if slices.len() < 3 || slices[0] > u16::MAX as u32 {
+            log::warn!("LJPEG: invalid slices {slices:?}");
+            return;
+        }
         let mut v = Vec::new();
         let n = slices[0] as usize;
         v.resize(n + 1, slices[1]);
diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index c4cf5cb..ead998a 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -138,8 +138,11 @@ impl<T: Copy + Default> SlicedBuffer<T> {
             self.pos = new_pos;
         } else {
             iter.for_each(|d| {
-                self.buffer[self.pos] = d;
-                self.pos = self.advance();
+                // There might be more data than the slices hold.
+                if let Some(b) = self.buffer.get_mut(self.pos) {
+                    *b = d;
+                    self.pos = self.advance();
+                }
             })
         }
     }
-- 
2.43.0


From f7b786234881b92f5b053b58061b4bcf353d3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 19/33] fix: LJPEG tiles that fail to decode don't move the
 others

---
 src/decompress/tiled.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..2f0954d 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -38,7 +38,13 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0_u16; data_size];
+        // The place of a tile that is missing or short stays blank. Its size
+        // is that of the others.
+        let Some(any_tile) = tiles.iter().flatten().next() else {
+            log::error!("no tile");
+            return buffer;
+        };
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
@@ -47,9 +53,9 @@ impl TiledLJpeg {
         for tile in tiles {
             if tile.is_none() {
                 log::error!("tile is none");
-                continue;
             }
-            let tile = tile.as_ref().unwrap();
+            let buf = tile.as_ref().map(|t| t.buf.as_slice()).unwrap_or_default();
+            let tile = tile.as_ref().unwrap_or(any_tile);
             // Edge tiles might be wider than necessary, ie width
             // isn't a multiple of the image width.
             let row_len = std::cmp::min(tile.u_width as usize, width - first_col);
@@ -62,7 +68,10 @@ impl TiledLJpeg {
                 }
                 let pos = (first_row + r) * width + first_col;
                 let tile_pos = r * tile.u_width as usize;
-                buf_slice[pos..][..row_len].copy_from_slice(&tile.buf[tile_pos..][..row_len]);
+                let Some(row) = buf.get(tile_pos..tile_pos + row_len) else {
+                    break;
+                };
+                buf_slice[pos..][..row_len].copy_from_slice(row);
             }
             first_col += tile.u_width as usize;
             if first_col >= width {
-- 
2.43.0


From 686c0b0090a6a98b4b27755d65b70550ad1a7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 20/33] verif: tiles and LJPEG hooks

---
 src/decompress.rs       |   4 ++
 src/decompress/ljpeg.rs | 121 +++++++++++++++++++++++++++++++++++++++-
 src/decompress/tiled.rs |  27 +++++++++
 src/verif.rs            |  70 ++++++++++++++++++++++-
 4 files changed, 218 insertions(+), 4 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..c3fb0ad 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -26,7 +26,11 @@ mod ljpeg;
 mod sliced_buffer;
 mod tiled;
 
+#[cfg(libopenraw_verif = "ljpeg")]
+pub use ljpeg::verif as ljpeg_verif;
 pub use ljpeg::LJpeg;
+#[cfg(libopenraw_verif = "tiles")]
+pub use tiled::verif as tiled_verif;
 pub(crate) use tiled::TiledLJpeg;
 
 use std::io::{Read, Seek, SeekFrom};
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 4533084..c021c0b 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -56,9 +56,13 @@
 
 //! Lossless JPEG decompressor.
 
-use super::bit_reader::{BitReader, LJpegBitReader};
+use super::bit_reader::BitReader;
+#[cfg(not(libopenraw_verif = "plain_bits"))]
+use super::bit_reader::LJpegBitReader;
 use super::sliced_buffer::SlicedBuffer;
 use crate::bitmap::ImageBuffer;
+#[cfg(libopenraw_verif = "plain_bits")]
+use crate::verif::plain_bits::PlainBits as LJpegBitReader;
 use crate::{Error, Result};
 
 const M_SOF0: u8 = 0xc0;
@@ -1125,6 +1129,121 @@ fn extend(x: u16, s: u8) -> i32 {
     }
 }
 
+#[cfg(libopenraw_verif = "ljpeg")]
+pub mod verif {
+    use super::{ComponentType, DecompressInfo, HuffmanTable, LJpeg, LJpegBitReader, SlicedBuffer};
+    use crate::{Error, Result};
+
+    /// The difference that `s` bits stand for.
+    pub fn extend(x: u16, s: u8) -> i32 {
+        super::extend(x, s)
+    }
+
+    /// The prediction from the neighbours.
+    pub fn predict(psv: u8, left: u16, upper: u16, diag: u16) -> i32 {
+        let cur = vec![vec![left], vec![0]];
+        let prev = vec![vec![diag], vec![upper]];
+        LJpeg::new(false).quick_predict(1, 0, &cur, &prev, psv)
+    }
+
+    /// The width of each slice declared by CR2.
+    pub fn slices(declared: &[u32]) -> Option<Vec<u32>> {
+        let mut decoder = LJpeg::new(true);
+        decoder.set_slices(declared);
+        decoder.slices
+    }
+
+    /// A Huffman table.
+    pub struct Table(HuffmanTable);
+
+    impl Table {
+        /// From the number of codes of each length, and their values.
+        pub fn new(bits: &[u8], values: &[u8]) -> Result<Table> {
+            let mut table = HuffmanTable::default();
+            table.bits[..bits.len()].copy_from_slice(bits);
+            table.huffval[..values.len()].copy_from_slice(values);
+            table.fix()?;
+            Ok(Table(table))
+        }
+
+        /// Decode a value, and the 8 bits that come next.
+        pub fn decode(&self, data: &[u8]) -> Result<(u16, u16)> {
+            use super::BitReader;
+
+            let mut reader = LJpegBitReader::new(data);
+            let value = LJpeg::new(false).huff_decode(&self.0, &mut reader)?;
+            Ok((value, reader.peek(8)?))
+        }
+    }
+
+    /// What the headers of a stream hold.
+    pub struct Header {
+        pub width: u16,
+        pub height: u16,
+        pub components: u8,
+        pub precision: u8,
+        pub psv: u8,
+        pub pt: u8,
+        pub restart_interval: u16,
+    }
+
+    /// Decode the image after the headers. Each component has the table of
+    /// its index.
+    pub fn decode(header: &Header, tables: Vec<Table>, data: &[u8]) -> Result<Vec<u16>> {
+        let mut decoder = LJpeg::new(false);
+        let mut dc = DecompressInfo {
+            image_width: header.width,
+            image_height: header.height,
+            data_precision: header.precision,
+            num_components: header.components,
+            comps_in_scan: header.components as u16,
+            ss: header.psv,
+            pt: header.pt,
+            restart_interval: header.restart_interval,
+            ..DecompressInfo::default()
+        };
+        dc.comp_info
+            .resize(header.components as usize, Default::default());
+        for (i, table) in tables.into_iter().enumerate() {
+            dc.comp_info[i].h_samp_factor = 1;
+            dc.comp_info[i].v_samp_factor = 1;
+            dc.comp_info[i].dc_tbl_no = i as u16;
+            dc.cur_comp_info[i] = dc.comp_info[i].clone();
+            dc.dc_huff_tbl_ptrs[i] = Some(table.0);
+        }
+        let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
+            header.width as u32 * header.components as u32,
+            header.height as u32,
+            None,
+        );
+        let mut reader = LJpegBitReader::new(data);
+        decoder.decoder_struct_init(&mut dc)?;
+        decoder.huff_decoder_init(&mut dc, &mut reader)?;
+        decoder.decode_image(&mut dc, &mut reader, &mut output)?;
+        Ok(output.into())
+    }
+
+    /// What the headers of a stream declare.
+    pub fn headers(data: &[u8]) -> Result<Header> {
+        let mut dc = DecompressInfo::default();
+        let mut reader = LJpegBitReader::new(data);
+        let decoder = LJpeg::new(false);
+        decoder.read_file_header(&mut dc, &mut reader)?;
+        if !decoder.read_scan_header(&mut dc, &mut reader)? {
+            return Err(Error::NotFound);
+        }
+        Ok(Header {
+            width: dc.image_width,
+            height: dc.image_height,
+            components: dc.comps_in_scan as u8,
+            precision: dc.data_precision,
+            psv: dc.ss,
+            pt: dc.pt,
+            restart_interval: dc.restart_interval,
+        })
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::io::Read;
diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index 2f0954d..6c182ec 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -137,6 +137,33 @@ impl TiledLJpeg {
     }
 }
 
+#[cfg(libopenraw_verif = "tiles")]
+pub mod verif {
+    use super::TiledLJpeg;
+    pub use crate::decompress::ljpeg::Tile;
+    use crate::decompress::sliced_buffer::SlicedBuffer;
+
+    /// Combine tiles into an image.
+    pub fn combine(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
+        TiledLJpeg::combine_tiles(width, height, tiles)
+    }
+
+    /// Write data into an image by slices, `step` at a time.
+    pub fn slices(
+        width: u32,
+        height: u32,
+        slices: Option<&[u32]>,
+        data: &[u16],
+        step: usize,
+    ) -> Vec<u16> {
+        let mut buffer = SlicedBuffer::new(width, height, slices);
+        for chunk in data.chunks(step) {
+            buffer.extend(chunk.iter().copied());
+        }
+        buffer.into()
+    }
+}
+
 #[cfg(test)]
 mod test {
 
diff --git a/src/verif.rs b/src/verif.rs
index 74b02e9..db43983 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -61,9 +61,7 @@ pub mod unpack {
 
 #[cfg(libopenraw_verif = "bits")]
 pub mod bits {
-    use crate::decompress::bit_reader::{
-        BitReader, BitReaderBe32, BitReaderLe32, LJpegBitReader,
-    };
+    use crate::decompress::bit_reader::{BitReader, BitReaderBe32, BitReaderLe32, LJpegBitReader};
     use crate::Result;
 
     pub struct Be32<R>(BitReaderBe32<R>);
@@ -346,3 +344,69 @@ pub use crate::panasonic::decompress::verif as panasonic;
 
 #[cfg(libopenraw_verif = "pentax")]
 pub use crate::pentax::verif as pentax;
+
+#[cfg(libopenraw_verif = "tiles")]
+pub use crate::decompress::tiled_verif as tiles;
+
+#[cfg(libopenraw_verif = "ljpeg")]
+pub use crate::decompress::ljpeg_verif as ljpeg;
+
+#[cfg(libopenraw_verif = "plain_bits")]
+pub mod plain_bits {
+    use crate::decompress::bit_reader::BitReader;
+    use crate::{Error, Result};
+
+    /// Stands for `LJpegBitReader` on up to 16 bytes without stuffing or
+    /// markers.
+    pub struct PlainBits<'a> {
+        data: &'a [u8],
+        bits: u128,
+        pos: u32,
+    }
+
+    impl<'a> PlainBits<'a> {
+        pub fn new(data: &'a [u8]) -> Self {
+            let mut bits = 0;
+            for (i, b) in data.iter().enumerate() {
+                bits |= (*b as u128) << (120 - 8 * i);
+            }
+            PlainBits { data, bits, pos: 0 }
+        }
+
+        pub(crate) fn read_u8(&mut self) -> Result<u8> {
+            let v = self.peek(8)?;
+            self.consume(8);
+            Ok(v as u8)
+        }
+
+        pub(crate) fn read_u16(&mut self) -> Result<u16> {
+            let v = self.peek(16)?;
+            self.consume(16);
+            Ok(v)
+        }
+
+        pub(crate) fn skip(&mut self, seek: usize) {
+            self.pos += seek as u32 * 8;
+        }
+
+        pub(crate) fn discard(&mut self) {
+            self.pos = (self.pos + 7) & !7;
+        }
+    }
+
+    impl BitReader for PlainBits<'_> {
+        fn peek(&mut self, nbits: u8) -> Result<u16> {
+            if self.pos + nbits as u32 > self.data.len() as u32 * 8 {
+                return Err(Error::Decompression("end".into()));
+            }
+            if nbits == 0 {
+                return Ok(0);
+            }
+            Ok(((self.bits << self.pos) >> (128 - nbits as u32)) as u16)
+        }
+
+        fn consume(&mut self, nbits: u8) {
+            self.pos += nbits as u32;
+        }
+    }
+}
-- 
2.43.0


From 6b6c9d957336dbf928541a94d8b125224328af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 21/33] fix: data past the last slice isn't written over the
 others

---
 src/decompress/sliced_buffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index ead998a..3a2e79c 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -139,8 +139,10 @@ impl<T: Copy + Default> SlicedBuffer<T> {
         } else {
             iter.for_each(|d| {
                 // There might be more data than the slices hold.
-                if let Some(b) = self.buffer.get_mut(self.pos) {
-                    *b = d;
+                if self.slice < self.slices.len() {
+                    if let Some(b) = self.buffer.get_mut(self.pos) {
+                        *b = d;
+                    }
                     self.pos = self.advance();
                 }
             })
-- 
2.43.0


From 5ba7126d132f0663c3345c27cc68d75a973ba067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:22 +0000
Subject: [PATCH 22/33] verif: LJPEG decoding hook for a model

---
 src/decompress/ljpeg.rs | 48 +++++++++++++++++++++++++++++++++++------
 src/verif.rs            |  7 +++---
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index c021c0b..ac3adaf 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -624,6 +624,9 @@ impl LJpeg {
     // Taken from Figure F.16: extract next coded symbol from
     // input stream.
     fn huff_decode(&mut self, htbl: &HuffmanTable, reader: &mut LJpegBitReader) -> Result<u16> {
+        #[cfg(libopenraw_verif = "code4")]
+        return verif::code4(htbl, reader);
+
         let rv: u16;
         // If the huffman code is less than 8 bits, we can use the fast
         // table lookup to get its value.  It's more than 8 bits about
@@ -751,6 +754,9 @@ impl HuffmanTable {
     ];
 
     pub(crate) fn fix(&mut self) -> Result<()> {
+        #[cfg(libopenraw_verif = "code4")]
+        return Ok(());
+
         let mut huffsize = [0_u8; 257];
         let mut huffcode = [0_u16; 257];
 
@@ -1176,6 +1182,31 @@ pub mod verif {
         }
     }
 
+    /// Stands for `huff_decode` with tables of 16 codes, of 4 bits, for the
+    /// values 0 to 15 in order or in the reverse order.
+    #[cfg(libopenraw_verif = "code4")]
+    pub(super) fn code4(table: &HuffmanTable, reader: &mut LJpegBitReader) -> Result<u16> {
+        use super::BitReader;
+
+        let code = reader.get_bits(4)?;
+        Ok(if table.huffval[0] == 0 {
+            code
+        } else {
+            15 - code
+        })
+    }
+
+    /// Read the restart marker number `n`. Returns the number of the next.
+    pub fn restart(n: u8, data: &[u8]) -> Result<u8> {
+        let mut dc = DecompressInfo {
+            next_restart_num: n,
+            ..DecompressInfo::default()
+        };
+        let mut reader = LJpegBitReader::new(data);
+        LJpeg::new(false).process_restart(&mut dc, &mut reader)?;
+        Ok(dc.next_restart_num)
+    }
+
     /// What the headers of a stream hold.
     pub struct Header {
         pub width: u16,
@@ -1187,9 +1218,9 @@ pub mod verif {
         pub restart_interval: u16,
     }
 
-    /// Decode the image after the headers. Each component has the table of
-    /// its index.
-    pub fn decode(header: &Header, tables: Vec<Table>, data: &[u8]) -> Result<Vec<u16>> {
+    /// Decode the image after the headers. Each component has a table, the
+    /// number of codes of each length and their values.
+    pub fn decode(header: &Header, tables: &[(&[u8], &[u8])], data: &[u8]) -> Result<Vec<u16>> {
         let mut decoder = LJpeg::new(false);
         let mut dc = DecompressInfo {
             image_width: header.width,
@@ -1204,12 +1235,15 @@ pub mod verif {
         };
         dc.comp_info
             .resize(header.components as usize, Default::default());
-        for (i, table) in tables.into_iter().enumerate() {
+        for (i, (bits, values)) in tables.iter().enumerate() {
             dc.comp_info[i].h_samp_factor = 1;
             dc.comp_info[i].v_samp_factor = 1;
-            dc.comp_info[i].dc_tbl_no = i as u16;
-            dc.cur_comp_info[i] = dc.comp_info[i].clone();
-            dc.dc_huff_tbl_ptrs[i] = Some(table.0);
+            dc.cur_comp_info[i].h_samp_factor = 1;
+            dc.cur_comp_info[i].v_samp_factor = 1;
+            dc.cur_comp_info[i].dc_tbl_no = i as u16;
+            let table = dc.dc_huff_tbl_ptrs[i].insert(HuffmanTable::default());
+            table.bits[..bits.len()].copy_from_slice(bits);
+            table.huffval[..values.len()].copy_from_slice(values);
         }
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             header.width as u32 * header.components as u32,
diff --git a/src/verif.rs b/src/verif.rs
index db43983..c030cf8 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -366,10 +366,9 @@ pub mod plain_bits {
 
     impl<'a> PlainBits<'a> {
         pub fn new(data: &'a [u8]) -> Self {
-            let mut bits = 0;
-            for (i, b) in data.iter().enumerate() {
-                bits |= (*b as u128) << (120 - 8 * i);
-            }
+            let mut bytes = [0; 16];
+            bytes[..data.len()].copy_from_slice(data);
+            let bits = u128::from_be_bytes(bytes);
             PlainBits { data, bits, pos: 0 }
         }
 
-- 
2.43.0


From 5bbe3c7a0bde095d8d0980d6c97ddc04284c6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:31 +0000
Subject: [PATCH 23/33] fix: metadata values of entries without data or without
 values

An entry without enough data for its count is an invalid value with its
bytes rather than a panic. The first integer or rational of an empty
value is None, and the quad of an empty array is 0.
---
 src/metadata.rs      |  4 ++--
 src/tiff/iterator.rs | 39 ++++++++++++++++++++-------------------
 src/utils.rs         |  4 ++--
 3 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..f6487dd 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d34b5f5..012ca07 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -72,29 +72,30 @@ impl std::iter::Iterator for Iterator<'_> {
 }
 
 fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
-    match exif::TagType::try_from(entry.type_).unwrap_or(exif::TagType::Invalid) {
-        exif::TagType::Ascii => {
-            MetadataValue::String(utils::to_nul_terminated(&entry.string_value().unwrap()))
-        }
-        exif::TagType::Rational => {
-            MetadataValue::Rational(entry.value_array::<exif::Rational>(endian).unwrap())
-        }
-        exif::TagType::SRational => {
-            MetadataValue::SRational(entry.value_array::<exif::SRational>(endian).unwrap())
-        }
-        exif::TagType::Float => MetadataValue::Float(entry.value_array::<f32>(endian).unwrap()),
-        exif::TagType::Double => MetadataValue::Double(entry.value_array::<f64>(endian).unwrap()),
+    let value = match exif::TagType::try_from(entry.type_).unwrap_or(exif::TagType::Invalid) {
+        exif::TagType::Ascii => entry
+            .string_value()
+            .map(|s| MetadataValue::String(utils::to_nul_terminated(&s))),
+        exif::TagType::Rational => entry
+            .value_array::<exif::Rational>(endian)
+            .map(MetadataValue::Rational),
+        exif::TagType::SRational => entry
+            .value_array::<exif::SRational>(endian)
+            .map(MetadataValue::SRational),
+        exif::TagType::Float => entry.value_array::<f32>(endian).map(MetadataValue::Float),
+        exif::TagType::Double => entry.value_array::<f64>(endian).map(MetadataValue::Double),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            MetadataValue::Bytes(entry.data().to_vec())
+            Some(MetadataValue::Bytes(entry.data().to_vec()))
         }
-        exif::TagType::SByte => MetadataValue::SBytes(entry.value_array::<i8>(endian).unwrap()),
+        exif::TagType::SByte => entry.value_array::<i8>(endian).map(MetadataValue::SBytes),
         exif::TagType::Short | exif::TagType::Long => {
-            MetadataValue::Int(entry.uint_value_array(endian).unwrap())
+            entry.uint_value_array(endian).map(MetadataValue::Int)
         }
         exif::TagType::SShort | exif::TagType::SLong => {
-            MetadataValue::SInt(entry.int_value_array(endian).unwrap())
+            entry.int_value_array(endian).map(MetadataValue::SInt)
         }
-        exif::TagType::Error_ => MetadataValue::Invalid(entry.data().to_vec()),
-        exif::TagType::Invalid => MetadataValue::Invalid(entry.data().to_vec()),
-    }
+        exif::TagType::Error_ | exif::TagType::Invalid => None,
+    };
+    // Neither a known type nor enough data: only the bytes.
+    value.unwrap_or_else(|| MetadataValue::Invalid(entry.data().to_vec()))
 }
diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..d4a0e4c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -37,10 +37,10 @@ macro_rules! uninit_vec {
 
 /// Convert a slice of u32 to a quad of u16
 /// If there is less than 4 in the slice, it will use the first
-/// value for the quad.
+/// value for the quad, or 0 if there is none.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or(0) as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From 0af4188af232d0c88a64b6068f0ea1708386760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 24/33] fix: Olympus data shorter or longer than its rows

The unpacking of Olympus data sliced past the end of buffers for images
whose size isn't what cameras make, and the sizes overflowed.
---
 src/olympus.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..93576f1 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -215,28 +215,26 @@ impl OrfFile {
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        let interlaced = buf.get(interlaced_offset..).unwrap_or_default();
 
         let mut out: Vec<u16> = vec![0; width * height];
-        out.par_chunks_mut(width)
+        out.par_chunks_mut(width.max(1))
             .enumerate()
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
-                let inb = if (row % 2) == 0 {
-                    &buf[off..]
-                } else {
-                    &interlaced[off..]
-                };
+                let inb = if (row % 2) == 0 { buf } else { interlaced };
+                // There may be less data than rows.
+                let inb = inb.get(off..).unwrap_or_default();
 
                 let mut i = 0;
                 let mut o = 0;
                 while o < outb.len() {
                     let in_slice = &inb[i..];
-                    if in_slice.len() < 3 {
+                    let out_slice = &mut outb[o..];
+                    if in_slice.len() < 3 || out_slice.len() < 2 {
                         // If read short, it's the end.
                         break;
                     }
-                    let out_slice = &mut outb[o..];
                     out_slice[0] = ((in_slice[0] as u16) << 4) | ((in_slice[1] as u16) >> 4);
                     out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
                     i += 3;
@@ -257,6 +255,10 @@ impl OrfFile {
         while i < buf.len() {
             let in_slice = &buf[i..];
             let out_slice = &mut out[o..];
+            if in_slice.len() < 12 || out_slice.len() < 8 {
+                // If read short, it's the end.
+                break;
+            }
 
             out_slice[0] = ((in_slice[3] as u16) << 4) | (in_slice[2] as u16 >> 4);
             out_slice[1] = ((in_slice[2] as u16 & 0x0f) << 8) | in_slice[1] as u16;
@@ -283,7 +285,8 @@ impl OrfFile {
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                let (w, h) = (width as usize, height as usize);
+                if data8.len() == h * ((w * 12 / 8) + ((w + 2) / 10)) {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
@@ -297,7 +300,7 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if data8.len() == h * w * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
-- 
2.43.0


From d9b4ae94880907b50bf8a0fd3ab346f893fbfe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:49 +0000
Subject: [PATCH 25/33] verif: Olympus hooks

---
 src/olympus.rs            |  30 +++++++++++
 src/olympus/decompress.rs |   6 +++
 src/verif.rs              | 111 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 147 insertions(+)

diff --git a/src/olympus.rs b/src/olympus.rs
index 93576f1..6f599a8 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -28,8 +28,12 @@ use std::collections::HashMap;
 use std::rc::Rc;
 
 use once_cell::unsync::OnceCell;
+#[cfg(not(libopenraw_verif = "sequential"))]
 use rayon::prelude::*;
 
+#[cfg(libopenraw_verif = "sequential")]
+use crate::verif::sequential::*;
+
 use crate::bitmap::Bitmap;
 use crate::container;
 use crate::container::{Endian, RawContainer};
@@ -661,3 +665,29 @@ impl Dump for OrfFile {
 }
 
 dumpfile_impl!(OrfFile);
+
+#[cfg(libopenraw_verif = "olympus")]
+pub mod verif {
+    use super::OrfFile;
+
+    pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
+        OrfFile::decode_12be_olympus(buf, width, height)
+    }
+
+    pub fn decode_interlaced(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
+        OrfFile::decode_12be_olympus_interlaced(buf, width, height)
+    }
+
+    pub fn decompress(buf: &[u8], width: usize, height: usize) -> crate::Result<Vec<u16>> {
+        super::decompress::decompress_olympus(buf, width, height)
+    }
+
+    /// Whether the header is big endian, if it is one.
+    pub fn big_endian(buf: &[u8]) -> Option<bool> {
+        match OrfFile::is_magic_header(buf) {
+            Ok(crate::container::Endian::Big) => Some(true),
+            Ok(crate::container::Endian::Little) => Some(false),
+            _ => None,
+        }
+    }
+}
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..b820348 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -23,6 +23,9 @@
 
 //! Olympus decompression
 
+#[cfg(libopenraw_verif = "bits128")]
+use crate::verif::bits128::BitReader;
+#[cfg(not(libopenraw_verif = "bits128"))]
 use bitreader::BitReader;
 
 use crate::{Error, Result};
@@ -40,7 +43,10 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
 
     // XXX can we avoid the initialization to 0.
     // XXX this can be computed at compile time.
+    #[cfg(not(libopenraw_verif = "bits128"))]
     let mut bittable = [0_u8; 4096];
+    #[cfg(libopenraw_verif = "bits128")]
+    let mut bittable = crate::verif::bits128::Table::new();
     for (i, value) in bittable.iter_mut().enumerate() {
         *value = 12;
         for high in 0..12 {
diff --git a/src/verif.rs b/src/verif.rs
index c030cf8..5536973 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -409,3 +409,114 @@ pub mod plain_bits {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "olympus")]
+pub use crate::olympus::verif as olympus;
+
+#[cfg(libopenraw_verif = "sequential")]
+pub mod sequential {
+    /// Stands for the parallel iterators of rayon on slices.
+    pub trait Sequential<T> {
+        fn par_chunks_mut(&mut self, size: usize) -> std::slice::ChunksMut<'_, T>;
+    }
+
+    impl<T> Sequential<T> for [T] {
+        fn par_chunks_mut(&mut self, size: usize) -> std::slice::ChunksMut<'_, T> {
+            self.chunks_mut(size)
+        }
+    }
+}
+
+#[cfg(libopenraw_verif = "bits128")]
+pub mod bits128 {
+    use crate::{Error, Result};
+
+    /// The cells of `Table` that exist.
+    pub static mut CELLS: [usize; 12] = [0; 12];
+
+    /// Stands for an array of 4096 values, with some cells only.
+    pub struct Table {
+        keys: [usize; 12],
+        values: [u8; 12],
+    }
+
+    impl Table {
+        pub fn new() -> Table {
+            Table {
+                keys: unsafe { CELLS },
+                values: [0; 12],
+            }
+        }
+
+        pub fn iter_mut(&mut self) -> Cells<'_> {
+            Cells(self)
+        }
+    }
+
+    pub struct Cells<'a>(&'a mut Table);
+
+    impl<'a> Cells<'a> {
+        pub fn enumerate(self) -> impl Iterator<Item = (usize, &'a mut u8)> {
+            self.0.keys.iter().copied().zip(self.0.values.iter_mut())
+        }
+    }
+
+    impl std::ops::Index<usize> for Table {
+        type Output = u8;
+
+        fn index(&self, index: usize) -> &u8 {
+            let mut i = 0;
+            while self.keys[i] != index {
+                i += 1;
+            }
+            &self.values[i]
+        }
+    }
+
+    /// Stands for the `bitreader` crate on up to 16 bytes.
+    pub struct BitReader {
+        bits: u128,
+        pos: u32,
+        len: u32,
+    }
+
+    impl BitReader {
+        pub fn new(data: &[u8]) -> Self {
+            let mut bytes = [0; 16];
+            bytes[..data.len()].copy_from_slice(data);
+            BitReader {
+                bits: u128::from_be_bytes(bytes),
+                pos: 0,
+                len: data.len() as u32 * 8,
+            }
+        }
+
+        pub fn remaining(&self) -> u64 {
+            (self.len - self.pos) as u64
+        }
+
+        pub fn peek_u16(&self, count: u8) -> Result<u16> {
+            if count == 0 {
+                return Ok(0);
+            }
+            if count > 16 || self.pos + count as u32 > self.len {
+                return Err(Error::UnexpectedEOF);
+            }
+            Ok(((self.bits << self.pos) >> (128 - count as u32)) as u16)
+        }
+
+        pub fn read_u16(&mut self, count: u8) -> Result<u16> {
+            let value = self.peek_u16(count)?;
+            self.pos += count as u32;
+            Ok(value)
+        }
+
+        pub fn skip(&mut self, count: u64) -> Result<()> {
+            if self.pos + count as u32 > self.len {
+                return Err(Error::UnexpectedEOF);
+            }
+            self.pos += count as u32;
+            Ok(())
+        }
+    }
+}
-- 
2.43.0


From 8adb14f1a1171ab55c4b42b03800740034738866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:35 +0000
Subject: [PATCH 26/33] fix: malformed Minolta files and blocks

A missing or broken TTW block, an empty thumbnail, a white balance
denominator or dimensions that overflow panicked, and so did broken
raw info in a Sony A100 file.
---
 src/minolta.rs | 55 +++++++++++++++++++++++++++++++-------------------
 src/sony.rs    |  5 +++--
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..1b49f41 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,7 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self.container.get().unwrap().ifd_container()?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -215,7 +215,9 @@ impl RawFileImpl for MrwFile {
                 if let Some(mut buffer) = buffer {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
-                    buffer[0] = 0xff;
+                    if let Some(first) = buffer.first_mut() {
+                        *first = 0xff;
+                    }
                     thumbnails.push((
                         640,
                         thumbnail::ThumbDesc {
@@ -235,7 +237,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get()?.ifd_container().ok()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -252,11 +254,7 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
-            let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
-            } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+            let cfa_len = rawinfo.data_len();
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len);
@@ -270,7 +268,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let mut unpacked = Vec::with_capacity(rawinfo.x as usize * rawinfo.y as usize);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -521,6 +519,18 @@ pub(crate) struct RawInfo {
     pub mosaic: Pattern,
 }
 
+impl RawInfo {
+    /// The length in bytes of the raw data.
+    fn data_len(&self) -> u64 {
+        let count = self.x as u64 * self.y as u64;
+        if self.is_compressed {
+            count + (count >> 1)
+        } else {
+            2 * count
+        }
+    }
+}
+
 #[derive(Debug)]
 pub(crate) struct MrwContainer {
     endian: Endian,
@@ -599,15 +609,14 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
+    fn ifd_container(&self) -> Result<&tiff::Container> {
+        self.ifd.get_or_try_init(|| {
+            let ttw = self.ttw.as_ref().ok_or(Error::NotFound)?;
+            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)?;
             let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
+            ifd.load(None)?;
 
-            ifd
+            Ok(ifd)
         })
     }
 
@@ -651,13 +660,13 @@ impl MrwContainer {
         self.wbg.as_ref().and_then(|wbg| {
             let rd = wbg
                 .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .and_then(|d| 1_u64.checked_shl(6 + d as u32))? as f64;
             let gd = wbg
                 .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .and_then(|d| 1_u64.checked_shl(6 + d as u32))? as f64;
             let bd = wbg
                 .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .and_then(|d| 1_u64.checked_shl(6 + d as u32))? as f64;
             let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
             let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
             let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
@@ -714,7 +723,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -811,7 +822,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Ok(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
diff --git a/src/sony.rs b/src/sony.rs
index a36a6b7..bd4fbc4 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,13 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
-- 
2.43.0


From 584f4763712f1795f79b615cafd5542ae343335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 27/33] verif: Minolta hooks, files in memory

---
 src/io.rs      |  8 +++++++
 src/minolta.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/verif.rs   | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 132 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 1d3d8a3..7951576 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -254,16 +254,24 @@ impl View {
 
 impl std::io::Read for View {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        #[cfg(not(libopenraw_verif = "memory"))]
         let inner = self.inner.upgrade().expect("Couldn't upgrade inner");
+        #[cfg(not(libopenraw_verif = "memory"))]
         let mut io = inner.get_io();
+        #[cfg(libopenraw_verif = "memory")]
+        let mut io = crate::verif::memory::File;
         io.read(buf)
     }
 }
 
 impl std::io::Seek for View {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        #[cfg(not(libopenraw_verif = "memory"))]
         let inner = self.inner.upgrade().expect("Couldn't upgrade inner");
+        #[cfg(not(libopenraw_verif = "memory"))]
         let mut io = inner.get_io();
+        #[cfg(libopenraw_verif = "memory")]
+        let mut io = crate::verif::memory::File;
         io.seek(match pos {
             SeekFrom::Start(p) => {
                 if p > self.length {
diff --git a/src/minolta.rs b/src/minolta.rs
index 1b49f41..b737182 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -842,3 +842,65 @@ impl Dump for MrwContainer {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "minolta")]
+pub mod verif {
+    use std::rc::Rc;
+
+    use super::MrwContainer;
+    use crate::container::Endian;
+    use crate::io::Viewer;
+    use crate::mosaic::Pattern;
+    use crate::rawfile::ReadAndSeek;
+    use crate::Result;
+
+    /// A loaded container and what keeps it alive.
+    pub struct Mrw {
+        container: MrwContainer,
+        _viewer: Rc<Viewer>,
+    }
+
+    pub struct Info {
+        pub size: (u32, u32),
+        pub bps: u16,
+        pub packed: bool,
+        pub gbrg: bool,
+        pub data_offset: u64,
+        pub data_len: u64,
+    }
+
+    impl Mrw {
+        pub fn load(inner: Box<dyn ReadAndSeek>, length: u64, little: bool) -> Result<Mrw> {
+            let viewer = Viewer::new(inner, length);
+            let view = Viewer::create_view(&viewer, 0)?;
+            let mut container = MrwContainer::new(view);
+            if little {
+                container.set_endian(Endian::Little);
+            }
+            container.load()?;
+            Ok(Mrw {
+                container,
+                _viewer: viewer,
+            })
+        }
+
+        pub fn version(&self) -> &str {
+            &self.container.version
+        }
+
+        pub fn info(&self) -> Result<Info> {
+            self.container.minolta_prd().map(|info| Info {
+                size: (info.x, info.y),
+                bps: info.bps,
+                packed: info.is_compressed,
+                gbrg: matches!(info.mosaic, Pattern::Gbrg),
+                data_offset: self.container.raw_data_offset(),
+                data_len: info.data_len(),
+            })
+        }
+
+        pub fn wb(&self) -> Option<[f64; 4]> {
+            self.container.get_wb()
+        }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
index 5536973..30c06e9 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -410,6 +410,9 @@ pub mod plain_bits {
     }
 }
 
+#[cfg(libopenraw_verif = "minolta")]
+pub use crate::minolta::verif as minolta;
+
 #[cfg(libopenraw_verif = "olympus")]
 pub use crate::olympus::verif as olympus;
 
@@ -520,3 +523,62 @@ pub mod bits128 {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "memory")]
+pub mod memory {
+    use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
+
+    /// The content of the only file.
+    pub static mut DATA: [u8; 128] = [0; 128];
+    pub static mut LENGTH: u64 = 0;
+    static mut POSITION: u64 = 0;
+
+    /// Stands for the reader of any view.
+    pub struct File;
+
+    impl Read for File {
+        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+            match self.read_exact(buf) {
+                Ok(()) => Ok(buf.len()),
+                Err(_) => Ok(0),
+            }
+        }
+
+        /// Words are read without loops.
+        fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
+            let (p, n) = (unsafe { POSITION }, buf.len());
+            if p > unsafe { LENGTH } || n as u64 > unsafe { LENGTH } - p {
+                return Err(ErrorKind::UnexpectedEof.into());
+            }
+            let p = p as usize;
+            macro_rules! byte {
+                ($($i:literal)*) => {$(
+                    if n > $i {
+                        buf[$i] = unsafe { DATA[p + $i] };
+                    }
+                )*};
+            }
+            if n <= 8 {
+                byte!(0 1 2 3 4 5 6 7);
+            } else {
+                let data: &'static [u8; 128] = unsafe { &*std::ptr::addr_of!(DATA) };
+                buf.copy_from_slice(&data[p..p + n]);
+            }
+            unsafe { POSITION += n as u64 };
+            Ok(())
+        }
+    }
+
+    impl Seek for File {
+        fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+            let to = match pos {
+                SeekFrom::Start(p) => Some(p),
+                SeekFrom::End(o) => unsafe { LENGTH }.checked_add_signed(o),
+                SeekFrom::Current(o) => unsafe { POSITION }.checked_add_signed(o),
+            };
+            let to = to.ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
+            unsafe { POSITION = to };
+            Ok(to)
+        }
+    }
+}
-- 
2.43.0


From 7ea4b21f39b6c2afadd99b19dc6d55c7497bd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 28/33] fix: metadata of bytes has the values of the entry, not
 its padding

---
 src/tiff/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index 012ca07..492fa44 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -85,7 +85,8 @@ fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
         exif::TagType::Float => entry.value_array::<f32>(endian).map(MetadataValue::Float),
         exif::TagType::Double => entry.value_array::<f64>(endian).map(MetadataValue::Double),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            Some(MetadataValue::Bytes(entry.data().to_vec()))
+            // Not the data, it is padded when inline.
+            entry.value_array::<u8>(endian).map(MetadataValue::Bytes)
         }
         exif::TagType::SByte => entry.value_array::<i8>(endian).map(MetadataValue::SBytes),
         exif::TagType::Short | exif::TagType::Long => {
-- 
2.43.0


From be18f7fcc82346601718247c2d65b06df7652be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:42 +0000
Subject: [PATCH 29/33] verif: metadata hook, Minolta blocks

---
 src/minolta.rs       | 42 ++++++++++++++++++++++++++++++++++--------
 src/tiff.rs          |  2 ++
 src/tiff/iterator.rs | 13 +++++++++++++
 src/verif.rs         |  5 ++++-
 4 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index b737182..0a2f62a 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -847,7 +847,7 @@ impl Dump for MrwContainer {
 pub mod verif {
     use std::rc::Rc;
 
-    use super::MrwContainer;
+    use super::{DataBlock, MrwContainer};
     use crate::container::Endian;
     use crate::io::Viewer;
     use crate::mosaic::Pattern;
@@ -865,36 +865,62 @@ pub mod verif {
         pub bps: u16,
         pub packed: bool,
         pub gbrg: bool,
-        pub data_offset: u64,
         pub data_len: u64,
     }
 
     impl Mrw {
-        pub fn load(inner: Box<dyn ReadAndSeek>, length: u64, little: bool) -> Result<Mrw> {
+        pub fn new(inner: Box<dyn ReadAndSeek>, length: u64, little: bool) -> Mrw {
             let viewer = Viewer::new(inner, length);
-            let view = Viewer::create_view(&viewer, 0)?;
+            let Ok(view) = Viewer::create_view(&viewer, 0) else {
+                panic!("a view of the whole file");
+            };
             let mut container = MrwContainer::new(view);
             if little {
                 container.set_endian(Endian::Little);
             }
-            container.load()?;
-            Ok(Mrw {
+            Mrw {
                 container,
                 _viewer: viewer,
-            })
+            }
+        }
+
+        pub fn load(&mut self) -> Result<()> {
+            self.container.load()
+        }
+
+        /// Blocks (offset and length) rather than from loading them.
+        pub fn set_blocks(&mut self, mrm: u64, prd: Option<(u64, u64)>, wbg: Option<(u64, u64)>) {
+            let block = |(offset, length)| DataBlock {
+                offset,
+                name: [0; 4],
+                length,
+            };
+            self.container.mrm = Some(block((0, mrm)));
+            self.container.prd = prd.map(block);
+            self.container.wbg = wbg.map(block);
+        }
+
+        /// The offset and length of the PRD, WBG, TTW and RIF blocks.
+        pub fn blocks(&self) -> [Option<(u64, u64)>; 4] {
+            let c = &self.container;
+            let at = |b: &Option<DataBlock>| b.as_ref().map(|b| (b.offset, b.length));
+            [at(&c.prd), at(&c.wbg), at(&c.ttw), at(&c.rif)]
         }
 
         pub fn version(&self) -> &str {
             &self.container.version
         }
 
+        pub fn data_offset(&self) -> u64 {
+            self.container.raw_data_offset()
+        }
+
         pub fn info(&self) -> Result<Info> {
             self.container.minolta_prd().map(|info| Info {
                 size: (info.x, info.y),
                 bps: info.bps,
                 packed: info.is_compressed,
                 gbrg: matches!(info.mosaic, Pattern::Gbrg),
-                data_offset: self.container.raw_data_offset(),
                 data_len: info.data_len(),
             })
         }
diff --git a/src/tiff.rs b/src/tiff.rs
index 82246df..8692ef1 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -26,6 +26,8 @@ mod dir;
 mod entry;
 pub mod exif;
 mod iterator;
+#[cfg(libopenraw_verif = "metadata")]
+pub use iterator::verif;
 
 use std::convert::TryFrom;
 
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index 492fa44..25cacc3 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -100,3 +100,16 @@ fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
     // Neither a known type nor enough data: only the bytes.
     value.unwrap_or_else(|| MetadataValue::Invalid(entry.data().to_vec()))
 }
+
+#[cfg(libopenraw_verif = "metadata")]
+pub mod verif {
+    use super::{from_entry, Endian, Entry, MetadataValue};
+
+    /// The metadata value of an entry.
+    pub fn value(typ: i16, count: u32, data: Vec<u8>, big: bool) -> MetadataValue {
+        from_entry(
+            &Entry::new_with_data(1, typ, count, data),
+            if big { Endian::Big } else { Endian::Little },
+        )
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
index 30c06e9..abcc41f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -410,6 +410,9 @@ pub mod plain_bits {
     }
 }
 
+#[cfg(libopenraw_verif = "metadata")]
+pub use crate::tiff::verif as metadata;
+
 #[cfg(libopenraw_verif = "minolta")]
 pub use crate::minolta::verif as minolta;
 
@@ -531,7 +534,7 @@ pub mod memory {
     /// The content of the only file.
     pub static mut DATA: [u8; 128] = [0; 128];
     pub static mut LENGTH: u64 = 0;
-    static mut POSITION: u64 = 0;
+    pub static mut POSITION: u64 = 0;
 
     /// Stands for the reader of any view.
     pub struct File;
-- 
2.43.0


From b6ab83fa4e8d12e7744f932ceb8179d11712a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:40 +0000
Subject: [PATCH 30/33] fix: a chain of TIFF directories that loops stops

---
 src/tiff/container.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..a1aefbf 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -22,7 +22,7 @@
 //! The IFD Container. Contains the IFD `Dir`
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -232,7 +232,13 @@ impl Container {
                 view.seek(SeekFrom::Start(4)).expect("Seek failed");
                 view.read_endian_u32(self.endian()).unwrap_or(0)
             };
+            // The offsets of the directories. A chain that loops has to stop.
+            let mut offsets = BTreeSet::new();
             while dir_offset != 0 {
+                if !offsets.insert(dir_offset) {
+                    error!("The directory at {dir_offset} was already read");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
-- 
2.43.0


From 0fa462988a0ea43607688c6b6041d340399a124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:55 +0000
Subject: [PATCH 31/33] verif: length of Minolta data in its own hook

---
 src/minolta.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 0a2f62a..91cdc8d 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -847,7 +847,7 @@ impl Dump for MrwContainer {
 pub mod verif {
     use std::rc::Rc;
 
-    use super::{DataBlock, MrwContainer};
+    use super::{DataBlock, MrwContainer, RawInfo};
     use crate::container::Endian;
     use crate::io::Viewer;
     use crate::mosaic::Pattern;
@@ -865,7 +865,18 @@ pub mod verif {
         pub bps: u16,
         pub packed: bool,
         pub gbrg: bool,
-        pub data_len: u64,
+    }
+
+    /// The length of the data for dimensions.
+    pub fn data_len(x: u16, y: u16, packed: bool) -> u64 {
+        RawInfo {
+            x: x as u32,
+            y: y as u32,
+            bps: 12,
+            is_compressed: packed,
+            mosaic: Pattern::Rggb,
+        }
+        .data_len()
     }
 
     impl Mrw {
@@ -921,7 +932,6 @@ pub mod verif {
                 bps: info.bps,
                 packed: info.is_compressed,
                 gbrg: matches!(info.mosaic, Pattern::Gbrg),
-                data_len: info.data_len(),
             })
         }
 
-- 
2.43.0


From d0aa2ac651418a9f5c8ae913ca1571f538c7d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:21 +0000
Subject: [PATCH 32/33] verif: TIFF directories and maker notes hooks

---
 src/tiff.rs                |   2 +
 src/tiff/container.rs      |  68 +++++++++++++
 src/tiff/dir.rs            |  23 ++++-
 src/tiff/exif/generated.rs |   2 +
 src/tiff/iterator.rs       |   3 +
 src/verif.rs               | 198 ++++++++++++++++++++++++++++++++++++-
 6 files changed, 294 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 8692ef1..635db30 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -26,6 +26,8 @@ mod dir;
 mod entry;
 pub mod exif;
 mod iterator;
+#[cfg(libopenraw_verif = "tiff")]
+pub use container::verif as ifd_verif;
 #[cfg(libopenraw_verif = "metadata")]
 pub use iterator::verif;
 
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index a1aefbf..c96a20a 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -424,3 +424,71 @@ impl Dump for Container {
         dump_writeln!(out, indent, "</TIFF Container>");
     }
 }
+
+#[cfg(libopenraw_verif = "tiff")]
+pub mod verif {
+    use std::rc::Rc;
+
+    use super::{Container, Dir, IfdType};
+    use crate::container::{Endian, RawContainer};
+    use crate::io::Viewer;
+    use crate::rawfile::ReadAndSeek;
+    use crate::Result;
+    use crate::Type as RawType;
+
+    /// A TIFF container and what keeps it alive.
+    pub struct Tiff {
+        container: Container,
+        _viewer: Rc<Viewer>,
+    }
+
+    pub struct Ifd(Dir);
+
+    impl Tiff {
+        pub fn new(inner: Box<dyn ReadAndSeek>, length: u64, big: bool) -> Tiff {
+            let viewer = Viewer::new(inner, length);
+            let Ok(view) = Viewer::create_view(&viewer, 0) else {
+                panic!("a view of the whole file");
+            };
+            let container = Container::new(view, vec![], RawType::Tiff);
+            container
+                .endian
+                .replace(if big { Endian::Big } else { Endian::Little });
+            Tiff {
+                container,
+                _viewer: viewer,
+            }
+        }
+
+        /// The directory at an offset, its data being relative to `base`.
+        pub fn read(&self, offset: u32, base: u32) -> Result<Ifd> {
+            let mut view = self.container.borrow_view_mut();
+            self.container
+                .dir_at(&mut view, offset, base, IfdType::Other, None, None)
+                .map(Ifd)
+        }
+    }
+
+    impl Ifd {
+        pub fn len(&self) -> usize {
+            self.0.entries.len()
+        }
+
+        /// The type, count, bytes, and offset if it is of undefined type.
+        pub fn entry(&self, id: u16) -> Option<(i16, u32, &[u8], Option<u32>)> {
+            self.0
+                .entries
+                .get(&id)
+                .map(|e| (e.type_, e.count, e.data(), e.offset()))
+        }
+
+        pub fn next(&self) -> u32 {
+            self.0.next_ifd()
+        }
+    }
+
+    /// The byte order that the header says.
+    pub fn big_endian(buf: &[u8]) -> Result<bool> {
+        Container::is_magic_header(buf).map(|e| e == Endian::Big)
+    }
+}
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..9a21210 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -22,7 +22,11 @@
 //! Image File Directory is the main data structure of TIFF used by Exif
 //! and most RAW format.
 
-use std::collections::{BTreeMap, HashMap};
+#[cfg(libopenraw_verif = "map")]
+use crate::verif::map::BTreeMap;
+#[cfg(not(libopenraw_verif = "map"))]
+use std::collections::BTreeMap;
+use std::collections::HashMap;
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -46,6 +50,8 @@ use crate::sigma;
 use crate::sony;
 use crate::tiff::{self, exif, TagType};
 use crate::utils;
+#[cfg(libopenraw_verif = "names")]
+use crate::verif::names as lazy_static;
 #[cfg(feature = "dump")]
 use crate::Dump;
 use crate::Type as RawType;
@@ -494,12 +500,27 @@ impl Dir {
         )
     }
 
+    /// Only what is looked for.
+    #[cfg(libopenraw_verif = "makernote")]
+    pub(crate) fn new_makernote(
+        id: &[u8],
+        _container: &dyn container::RawContainer,
+        endian: container::Endian,
+        offset: u32,
+        mnote_offset: u32,
+        _tag_names: &'static HashMap<u16, &'static str>,
+    ) -> Result<Dir> {
+        crate::verif::makernote::record(id, endian, offset, mnote_offset);
+        Err(Error::NotFound)
+    }
+
     /// Create a new MakerNote with `id`. `offset` is the offset in the container
     /// while `mnote_offset` is the offset to apply from inside the MakerNote.
     /// `tag_names` allow custom display of tags.
     /// Passing `container::Endian::Unset` for `endian` mean that the endian from
     /// container shall be used. It's the default behaviour. But sometime it is necessary
     /// to do expicitely override the endian like Fujifilm.
+    #[cfg(not(libopenraw_verif = "makernote"))]
     pub(crate) fn new_makernote(
         id: &[u8],
         container: &dyn container::RawContainer,
diff --git a/src/tiff/exif/generated.rs b/src/tiff/exif/generated.rs
index 5d1e4c6..a45b3eb 100644
--- a/src/tiff/exif/generated.rs
+++ b/src/tiff/exif/generated.rs
@@ -3,6 +3,8 @@
 //! This contain the tag names generated from ExifTool.
 
 use std::collections::HashMap;
+#[cfg(libopenraw_verif = "names")]
+use crate::verif::names as lazy_static;
 lazy_static::lazy_static! {
 /// Exif tag names
 pub static ref EXIF_TAG_NAMES: HashMap<u16, &'static str> = HashMap::from([
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index 25cacc3..d4c611e 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -21,6 +21,9 @@
 
 //! The iterator over the ifd entries as `metadata::Value`
 
+#[cfg(libopenraw_verif = "map")]
+use crate::verif::map as btree_map;
+#[cfg(not(libopenraw_verif = "map"))]
 use std::collections::btree_map;
 use std::convert::TryFrom;
 
diff --git a/src/verif.rs b/src/verif.rs
index abcc41f..ee7e300 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -413,6 +413,9 @@ pub mod plain_bits {
 #[cfg(libopenraw_verif = "metadata")]
 pub use crate::tiff::verif as metadata;
 
+#[cfg(libopenraw_verif = "tiff")]
+pub use crate::tiff::ifd_verif as tiff;
+
 #[cfg(libopenraw_verif = "minolta")]
 pub use crate::minolta::verif as minolta;
 
@@ -543,7 +546,10 @@ pub mod memory {
         fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
             match self.read_exact(buf) {
                 Ok(()) => Ok(buf.len()),
-                Err(_) => Ok(0),
+                Err(e) => {
+                    std::mem::forget(e);
+                    Ok(0)
+                }
             }
         }
 
@@ -585,3 +591,193 @@ pub mod memory {
         }
     }
 }
+
+#[cfg(libopenraw_verif = "makernote")]
+pub mod makernote {
+    use std::cell::{RefCell, RefMut};
+    use std::rc::Rc;
+
+    use crate::container::{Endian, RawContainer};
+    use crate::io::{View, Viewer};
+    use crate::rawfile::ReadAndSeek;
+    use crate::tiff::Dir;
+    use crate::Type;
+
+    /// A maker note directory that is looked for.
+    #[derive(Clone, Copy, Debug, PartialEq)]
+    pub struct Note {
+        pub id: [u8; 24],
+        /// The byte order, if it isn't that of the file.
+        pub big: Option<bool>,
+        pub offset: u32,
+        pub base: u32,
+    }
+
+    static mut NOTE: Option<Note> = None;
+
+    struct File(RefCell<View>, Type);
+
+    impl RawContainer for File {
+        fn raw_type(&self) -> Type {
+            self.1
+        }
+
+        fn borrow_view_mut(&self) -> RefMut<'_, View> {
+            self.0.borrow_mut()
+        }
+    }
+
+    /// The directory that is looked for in the maker note at an offset.
+    pub fn look(
+        inner: Box<dyn ReadAndSeek>,
+        length: u64,
+        type_: Type,
+        offset: u32,
+    ) -> Option<Note> {
+        let viewer = Viewer::new(inner, length);
+        let Ok(view) = Viewer::create_view(&viewer, 0) else {
+            panic!("a view of the whole file");
+        };
+        let file = File(RefCell::new(view), type_);
+        unsafe { NOTE = None };
+        std::mem::forget(Dir::create_maker_note(&file, offset));
+        std::mem::forget(file);
+        std::mem::forget(viewer);
+        unsafe { NOTE }
+    }
+
+    pub(crate) fn record(id: &[u8], endian: Endian, offset: u32, base: u32) {
+        let mut name = [0; 24];
+        name[..id.len()].copy_from_slice(id);
+        unsafe {
+            NOTE = Some(Note {
+                id: name,
+                big: match endian {
+                    Endian::Unset => None,
+                    Endian::Big => Some(true),
+                    Endian::Little => Some(false),
+                },
+                offset,
+                base,
+            })
+        };
+    }
+}
+
+#[cfg(libopenraw_verif = "names")]
+pub mod names {
+    use std::collections::HashMap;
+
+    type Names = HashMap<u16, &'static str>;
+
+    static NONE: [u64; 8] = [0; 8];
+
+    /// A table that is never looked at.
+    pub fn none() -> &'static Names {
+        unsafe { &*std::ptr::addr_of!(NONE).cast::<Names>() }
+    }
+
+    macro_rules! tables {
+        ($($(#[$m:meta])* $v:vis static ref $name:ident: $t:ty = $e:expr;)*) => {$(
+            $(#[$m])*
+            #[allow(non_camel_case_types)]
+            $v struct $name;
+
+            impl std::ops::Deref for $name {
+                type Target = $t;
+
+                fn deref(&self) -> &$t {
+                    crate::verif::names::none()
+                }
+            }
+        )*};
+    }
+    pub(crate) use tables as lazy_static;
+}
+
+#[cfg(libopenraw_verif = "map")]
+pub mod map {
+    use std::mem::MaybeUninit;
+
+    const MAX: usize = 4;
+
+    /// A map of a few values that are never dropped, nor sorted.
+    pub struct BTreeMap<K, V> {
+        keys: [MaybeUninit<K>; MAX],
+        values: [MaybeUninit<V>; MAX],
+        len: usize,
+    }
+
+    impl<K, V> std::fmt::Debug for BTreeMap<K, V> {
+        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            Ok(())
+        }
+    }
+
+    impl<K: Copy + PartialEq, V> BTreeMap<K, V> {
+        pub fn new() -> Self {
+            BTreeMap {
+                keys: [const { MaybeUninit::uninit() }; MAX],
+                values: [const { MaybeUninit::uninit() }; MAX],
+                len: 0,
+            }
+        }
+
+        pub fn len(&self) -> usize {
+            self.len
+        }
+
+        fn find(&self, key: &K) -> usize {
+            let mut i = 0;
+            while i < self.len && unsafe { self.keys[i].assume_init() } != *key {
+                i += 1;
+            }
+            i
+        }
+
+        pub fn get(&self, key: &K) -> Option<&V> {
+            let i = self.find(key);
+            if i < self.len {
+                Some(unsafe { self.values[i].assume_init_ref() })
+            } else {
+                None
+            }
+        }
+
+        pub fn insert(&mut self, key: K, value: V) {
+            let i = self.find(&key);
+            assert!(i < MAX, "model of a map");
+            self.keys[i].write(key);
+            self.values[i].write(value);
+            if i == self.len {
+                self.len += 1;
+            }
+        }
+
+        pub fn iter(&self) -> Iter<'_, K, V> {
+            Iter { map: self, next: 0 }
+        }
+    }
+
+    pub struct Iter<'a, K, V> {
+        map: &'a BTreeMap<K, V>,
+        next: usize,
+    }
+
+    impl<'a, K, V> Iterator for Iter<'a, K, V> {
+        type Item = (&'a K, &'a V);
+
+        fn next(&mut self) -> Option<Self::Item> {
+            if self.next == self.map.len {
+                return None;
+            }
+            self.next += 1;
+            Some(unsafe {
+                (
+                    self.map.keys[self.next - 1].assume_init_ref(),
+                    self.map.values[self.next - 1].assume_init_ref(),
+                )
+            })
+        }
+    }
+}
-- 
2.43.0


From f1d2dbea7997698642f91dcc2ca57760e98dba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:24 +0000
Subject: [PATCH 33/33] Revert "verif: TIFF directories and maker notes hooks"

This reverts commit d0aa2ac651418a9f5c8ae913ca1571f538c7d6cc.
---
 src/tiff.rs                |   2 -
 src/tiff/container.rs      |  68 -------------
 src/tiff/dir.rs            |  23 +----
 src/tiff/exif/generated.rs |   2 -
 src/tiff/iterator.rs       |   3 -
 src/verif.rs               | 198 +------------------------------------
 6 files changed, 2 insertions(+), 294 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 635db30..8692ef1 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -26,8 +26,6 @@ mod dir;
 mod entry;
 pub mod exif;
 mod iterator;
-#[cfg(libopenraw_verif = "tiff")]
-pub use container::verif as ifd_verif;
 #[cfg(libopenraw_verif = "metadata")]
 pub use iterator::verif;
 
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index c96a20a..a1aefbf 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -424,71 +424,3 @@ impl Dump for Container {
         dump_writeln!(out, indent, "</TIFF Container>");
     }
 }
-
-#[cfg(libopenraw_verif = "tiff")]
-pub mod verif {
-    use std::rc::Rc;
-
-    use super::{Container, Dir, IfdType};
-    use crate::container::{Endian, RawContainer};
-    use crate::io::Viewer;
-    use crate::rawfile::ReadAndSeek;
-    use crate::Result;
-    use crate::Type as RawType;
-
-    /// A TIFF container and what keeps it alive.
-    pub struct Tiff {
-        container: Container,
-        _viewer: Rc<Viewer>,
-    }
-
-    pub struct Ifd(Dir);
-
-    impl Tiff {
-        pub fn new(inner: Box<dyn ReadAndSeek>, length: u64, big: bool) -> Tiff {
-            let viewer = Viewer::new(inner, length);
-            let Ok(view) = Viewer::create_view(&viewer, 0) else {
-                panic!("a view of the whole file");
-            };
-            let container = Container::new(view, vec![], RawType::Tiff);
-            container
-                .endian
-                .replace(if big { Endian::Big } else { Endian::Little });
-            Tiff {
-                container,
-                _viewer: viewer,
-            }
-        }
-
-        /// The directory at an offset, its data being relative to `base`.
-        pub fn read(&self, offset: u32, base: u32) -> Result<Ifd> {
-            let mut view = self.container.borrow_view_mut();
-            self.container
-                .dir_at(&mut view, offset, base, IfdType::Other, None, None)
-                .map(Ifd)
-        }
-    }
-
-    impl Ifd {
-        pub fn len(&self) -> usize {
-            self.0.entries.len()
-        }
-
-        /// The type, count, bytes, and offset if it is of undefined type.
-        pub fn entry(&self, id: u16) -> Option<(i16, u32, &[u8], Option<u32>)> {
-            self.0
-                .entries
-                .get(&id)
-                .map(|e| (e.type_, e.count, e.data(), e.offset()))
-        }
-
-        pub fn next(&self) -> u32 {
-            self.0.next_ifd()
-        }
-    }
-
-    /// The byte order that the header says.
-    pub fn big_endian(buf: &[u8]) -> Result<bool> {
-        Container::is_magic_header(buf).map(|e| e == Endian::Big)
-    }
-}
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 9a21210..453ed4d 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -22,11 +22,7 @@
 //! Image File Directory is the main data structure of TIFF used by Exif
 //! and most RAW format.
 
-#[cfg(libopenraw_verif = "map")]
-use crate::verif::map::BTreeMap;
-#[cfg(not(libopenraw_verif = "map"))]
-use std::collections::BTreeMap;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -50,8 +46,6 @@ use crate::sigma;
 use crate::sony;
 use crate::tiff::{self, exif, TagType};
 use crate::utils;
-#[cfg(libopenraw_verif = "names")]
-use crate::verif::names as lazy_static;
 #[cfg(feature = "dump")]
 use crate::Dump;
 use crate::Type as RawType;
@@ -500,27 +494,12 @@ impl Dir {
         )
     }
 
-    /// Only what is looked for.
-    #[cfg(libopenraw_verif = "makernote")]
-    pub(crate) fn new_makernote(
-        id: &[u8],
-        _container: &dyn container::RawContainer,
-        endian: container::Endian,
-        offset: u32,
-        mnote_offset: u32,
-        _tag_names: &'static HashMap<u16, &'static str>,
-    ) -> Result<Dir> {
-        crate::verif::makernote::record(id, endian, offset, mnote_offset);
-        Err(Error::NotFound)
-    }
-
     /// Create a new MakerNote with `id`. `offset` is the offset in the container
     /// while `mnote_offset` is the offset to apply from inside the MakerNote.
     /// `tag_names` allow custom display of tags.
     /// Passing `container::Endian::Unset` for `endian` mean that the endian from
     /// container shall be used. It's the default behaviour. But sometime it is necessary
     /// to do expicitely override the endian like Fujifilm.
-    #[cfg(not(libopenraw_verif = "makernote"))]
     pub(crate) fn new_makernote(
         id: &[u8],
         container: &dyn container::RawContainer,
diff --git a/src/tiff/exif/generated.rs b/src/tiff/exif/generated.rs
index a45b3eb..5d1e4c6 100644
--- a/src/tiff/exif/generated.rs
+++ b/src/tiff/exif/generated.rs
@@ -3,8 +3,6 @@
 //! This contain the tag names generated from ExifTool.
 
 use std::collections::HashMap;
-#[cfg(libopenraw_verif = "names")]
-use crate::verif::names as lazy_static;
 lazy_static::lazy_static! {
 /// Exif tag names
 pub static ref EXIF_TAG_NAMES: HashMap<u16, &'static str> = HashMap::from([
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d4c611e..25cacc3 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -21,9 +21,6 @@
 
 //! The iterator over the ifd entries as `metadata::Value`
 
-#[cfg(libopenraw_verif = "map")]
-use crate::verif::map as btree_map;
-#[cfg(not(libopenraw_verif = "map"))]
 use std::collections::btree_map;
 use std::convert::TryFrom;
 
diff --git a/src/verif.rs b/src/verif.rs
index ee7e300..abcc41f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -413,9 +413,6 @@ pub mod plain_bits {
 #[cfg(libopenraw_verif = "metadata")]
 pub use crate::tiff::verif as metadata;
 
-#[cfg(libopenraw_verif = "tiff")]
-pub use crate::tiff::ifd_verif as tiff;
-
 #[cfg(libopenraw_verif = "minolta")]
 pub use crate::minolta::verif as minolta;
 
@@ -546,10 +543,7 @@ pub mod memory {
         fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
             match self.read_exact(buf) {
                 Ok(()) => Ok(buf.len()),
-                Err(e) => {
-                    std::mem::forget(e);
-                    Ok(0)
-                }
+                Err(_) => Ok(0),
             }
         }
 
@@ -591,193 +585,3 @@ pub mod memory {
         }
     }
 }
-
-#[cfg(libopenraw_verif = "makernote")]
-pub mod makernote {
-    use std::cell::{RefCell, RefMut};
-    use std::rc::Rc;
-
-    use crate::container::{Endian, RawContainer};
-    use crate::io::{View, Viewer};
-    use crate::rawfile::ReadAndSeek;
-    use crate::tiff::Dir;
-    use crate::Type;
-
-    /// A maker note directory that is looked for.
-    #[derive(Clone, Copy, Debug, PartialEq)]
-    pub struct Note {
-        pub id: [u8; 24],
-        /// The byte order, if it isn't that of the file.
-        pub big: Option<bool>,
-        pub offset: u32,
-        pub base: u32,
-    }
-
-    static mut NOTE: Option<Note> = None;
-
-    struct File(RefCell<View>, Type);
-
-    impl RawContainer for File {
-        fn raw_type(&self) -> Type {
-            self.1
-        }
-
-        fn borrow_view_mut(&self) -> RefMut<'_, View> {
-            self.0.borrow_mut()
-        }
-    }
-
-    /// The directory that is looked for in the maker note at an offset.
-    pub fn look(
-        inner: Box<dyn ReadAndSeek>,
-        length: u64,
-        type_: Type,
-        offset: u32,
-    ) -> Option<Note> {
-        let viewer = Viewer::new(inner, length);
-        let Ok(view) = Viewer::create_view(&viewer, 0) else {
-            panic!("a view of the whole file");
-        };
-        let file = File(RefCell::new(view), type_);
-        unsafe { NOTE = None };
-        std::mem::forget(Dir::create_maker_note(&file, offset));
-        std::mem::forget(file);
-        std::mem::forget(viewer);
-        unsafe { NOTE }
-    }
-
-    pub(crate) fn record(id: &[u8], endian: Endian, offset: u32, base: u32) {
-        let mut name = [0; 24];
-        name[..id.len()].copy_from_slice(id);
-        unsafe {
-            NOTE = Some(Note {
-                id: name,
-                big: match endian {
-                    Endian::Unset => None,
-                    Endian::Big => Some(true),
-                    Endian::Little => Some(false),
-                },
-                offset,
-                base,
-            })
-        };
-    }
-}
-
-#[cfg(libopenraw_verif = "names")]
-pub mod names {
-    use std::collections::HashMap;
-
-    type Names = HashMap<u16, &'static str>;
-
-    static NONE: [u64; 8] = [0; 8];
-
-    /// A table that is never looked at.
-    pub fn none() -> &'static Names {
-        unsafe { &*std::ptr::addr_of!(NONE).cast::<Names>() }
-    }
-
-    macro_rules! tables {
-        ($($(#[$m:meta])* $v:vis static ref $name:ident: $t:ty = $e:expr;)*) => {$(
-            $(#[$m])*
-            #[allow(non_camel_case_types)]
-            $v struct $name;
-
-            impl std::ops::Deref for $name {
-                type Target = $t;
-
-                fn deref(&self) -> &$t {
-                    crate::verif::names::none()
-                }
-            }
-        )*};
-    }
-    pub(crate) use tables as lazy_static;
-}
-
-#[cfg(libopenraw_verif = "map")]
-pub mod map {
-    use std::mem::MaybeUninit;
-
-    const MAX: usize = 4;
-
-    /// A map of a few values that are never dropped, nor sorted.
-    pub struct BTreeMap<K, V> {
-        keys: [MaybeUninit<K>; MAX],
-        values: [MaybeUninit<V>; MAX],
-        len: usize,
-    }
-
-    impl<K, V> std::fmt::Debug for BTreeMap<K, V> {
-        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-            Ok(())
-        }
-    }
-
-    impl<K: Copy + PartialEq, V> BTreeMap<K, V> {
-        pub fn new() -> Self {
-            BTreeMap {
-                keys: [const { MaybeUninit::uninit() }; MAX],
-                values: [const { MaybeUninit::uninit() }; MAX],
-                len: 0,
-            }
-        }
-
-        pub fn len(&self) -> usize {
-            self.len
-        }
-
-        fn find(&self, key: &K) -> usize {
-            let mut i = 0;
-            while i < self.len && unsafe { self.keys[i].assume_init() } != *key {
-                i += 1;
-            }
-            i
-        }
-
-        pub fn get(&self, key: &K) -> Option<&V> {
-            let i = self.find(key);
-            if i < self.len {
-                Some(unsafe { self.values[i].assume_init_ref() })
-            } else {
-                None
-            }
-        }
-
-        pub fn insert(&mut self, key: K, value: V) {
-            let i = self.find(&key);
-            assert!(i < MAX, "model of a map");
-            self.keys[i].write(key);
-            self.values[i].write(value);
-            if i == self.len {
-                self.len += 1;
-            }
-        }
-
-        pub fn iter(&self) -> Iter<'_, K, V> {
-            Iter { map: self, next: 0 }
-        }
-    }
-
-    pub struct Iter<'a, K, V> {
-        map: &'a BTreeMap<K, V>,
-        next: usize,
-    }
-
-    impl<'a, K, V> Iterator for Iter<'a, K, V> {
-        type Item = (&'a K, &'a V);
-
-        fn next(&mut self) -> Option<Self::Item> {
-            if self.next == self.map.len {
-                return None;
-            }
-            self.next += 1;
-            Some(unsafe {
-                (
-                    self.map.keys[self.next - 1].assume_init_ref(),
-                    self.map.values[self.next - 1].assume_init_ref(),
-                )
-            })
-        }
-    }
-}
-- 
2.43.0

