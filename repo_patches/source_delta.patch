From 24be5fea36b94ff1300142bffd6a991f1078f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 01/14] fix: return errors for malformed shader binaries in
 ShdrData instead of panicking

---
 ssbh_data/src/lib.rs       | 14 +++++++
 ssbh_data/src/shdr_data.rs | 76 ++++++++++++++++++++------------------
 2 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/ssbh_data/src/lib.rs b/ssbh_data/src/lib.rs
index 0cda803..a4dab24 100644
--- a/ssbh_data/src/lib.rs
+++ b/ssbh_data/src/lib.rs
@@ -238,6 +238,20 @@ ssbh_data_infallible_impl!(hlpb_data::HlpbData, Hlpb, std::io::Error);
 ssbh_data_impl!(skel_data::SkelData, Skel, skel_data::error::Error);
 // TODO: ShdrData.
 
+// Grow the buffer as needed to avoid large allocations due to malformed lengths.
+pub(crate) fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _endian: binrw::Endian,
+    (length,): (u64,),
+) -> binrw::BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    if reader.take(length).read_to_end(&mut bytes)? as u64 == length {
+        Ok(bytes)
+    } else {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 #[cfg(test)]
 pub(crate) fn group_hex(a: &str, words_per_line: usize) -> String {
     use itertools::Itertools;
diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..1ddd22f 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -1,4 +1,5 @@
 //! Types for working with [Shdr] data in .nushdb files.
+use crate::read_bytes;
 use binrw::io::{Cursor, Seek, SeekFrom};
 use binrw::BinReaderExt;
 use binrw::{binread, BinRead, BinResult, VecArgs};
@@ -36,38 +37,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +85,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +110,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +135,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +155,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Ok(Self::new(&mut reader, &shader)?)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Ok(Self::new(reader, &shader)?)
     }
 }
 
@@ -179,7 +184,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length as u64))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -374,14 +379,14 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    let length = (s.length as u64).saturating_sub(1);
+    let bytes = read_bytes(reader, binrw::Endian::Little, (length,))?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +394,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +405,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From 86b76452a0f8c93d11964199847324c853d5e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 02/14] fix: read anim 1.2 tracks in file order and return
 errors for malformed buffers

---
 ssbh_data/src/anim_data.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..b3e0aff 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -392,19 +391,19 @@ fn read_groups_v12(
     tracks: &[ssbh_lib::formats::anim::TrackV1],
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
-    // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Group by the track type in the order each type first appears.
+    let mut tracks_by_type: Vec<(GroupType, Vec<(String, TrackData)>)> = Vec::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
+        let track_data = create_track_data_v12(track, buffers)?;
+        let track = (track.name.to_string_lossy(), track_data);
+        match tracks_by_type.iter_mut().find(|(t, _)| *t == group_type) {
+            Some((_, tracks)) => tracks.push(track),
+            None => tracks_by_type.push((group_type, vec![track])),
+        }
     }
 
     // Use the grouping conventions for version 2.0+ anims.
@@ -471,7 +470,11 @@ fn create_track_data_v12(
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                // The size of the preceding data depends on the frame count.
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(72 + 4)
+                );
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
@@ -816,7 +819,8 @@ struct V12Test2 {
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    // align to float boundary
+    #[br(parse_with = crate::read_bytes, args(frame_count as u64), align_after = 4)]
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
-- 
2.43.0


From 92915757411773b60a69883c08d4fc47dba62449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 03/14] fix: return errors for compressed anim buffers with too
 few bits instead of panicking

---
 ssbh_data/src/anim_data/buffers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/buffers.rs b/ssbh_data/src/anim_data/buffers.rs
index 57b4bc6..1504b33 100644
--- a/ssbh_data/src/anim_data/buffers.rs
+++ b/ssbh_data/src/anim_data/buffers.rs
@@ -11,7 +11,7 @@ use ssbh_lib::{
 };
 
 use super::{
-    bitutils::{BitReader, BitWriter},
+    bitutils::{BitReadError, BitReader, BitWriter},
     compression::{
         CompressedBuffer, CompressedHeader, CompressedTrackData, Compression, CompressionFlags,
     },
@@ -311,6 +311,12 @@ fn read_compressed_inner<T: CompressedData>(
         frame_count
     };
 
+    // Make sure the buffer contains enough bits for all the values.
+    let required_bits = actual_count.checked_mul(expected_bit_count);
+    if !required_bits.is_some_and(|bits| bits <= buffer.len().saturating_mul(8)) {
+        return Err(BitReadError::NotEnoughBits.into());
+    }
+
     let mut values = Vec::new();
     for _ in 0..actual_count {
         let value = T::decompress(
-- 
2.43.0


From 4c7bf335e7a911bd8923f8b073b3b03fcf40cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 04/14] fix: don't overflow for malformed compressed pattern
 index tracks

---
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..3f5dd68 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -765,7 +765,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            // The sum only overflows for malformed data.
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From 09c8e940dac07531b450158e359155022bf38185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 05/14] fix: avoid truncating large compressed pattern index
 values

---
 ssbh_data/src/anim_data/compression.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 3f5dd68..40f80d2 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -788,12 +788,19 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+
+        // Use enough bits to avoid truncating the difference from min.
+        let required_bit_count = (u32::BITS - (max - min).leading_zeros()) as u64;
+
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                // TODO: How should this work for u32?
+                bit_count: DEFAULT_F32_BIT_COUNT.max(required_bit_count),
             },
         )
     }
-- 
2.43.0


From 456a0efd2255e23aac81737f3e5e3cf94f8b8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 06/14] fix: don't pad the output for empty byte buffers

---
 ssbh_lib/src/arrays.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ssbh_lib/src/arrays.rs b/ssbh_lib/src/arrays.rs
index 6159d5c..ccbd495 100644
--- a/ssbh_lib/src/arrays.rs
+++ b/ssbh_lib/src/arrays.rs
@@ -321,14 +321,17 @@ impl SsbhWrite for SsbhByteBuffer {
 
         write_array_header(writer, data_ptr, self.elements.len())?;
 
-        let current_pos = writer.stream_position()?;
-        writer.seek(SeekFrom::Start(*data_ptr))?;
-        // Use a custom implementation to avoid writing bytes individually.
-        // Pointers in array elements should point past the end of the array.
-        writer.write_all(&self.elements)?;
-        *data_ptr += self.elements.len() as u64;
-
-        writer.seek(SeekFrom::Start(current_pos))?;
+        // Writing zero bytes past the end would only extend some writers, so skip empty buffers.
+        if !self.elements.is_empty() {
+            let current_pos = writer.stream_position()?;
+            writer.seek(SeekFrom::Start(*data_ptr))?;
+            // Use a custom implementation to avoid writing bytes individually.
+            // Pointers in array elements should point past the end of the array.
+            writer.write_all(&self.elements)?;
+            *data_ptr += self.elements.len() as u64;
+
+            writer.seek(SeekFrom::Start(current_pos))?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From a922f771d9c445b86435ed043c401e1736020d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 07/14] fix: support saving MatlData version 1.5 as documented

---
 ssbh_data/src/matl_data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssbh_data/src/matl_data.rs b/ssbh_data/src/matl_data.rs
index d00b762..d741ce9 100644
--- a/ssbh_data/src/matl_data.rs
+++ b/ssbh_data/src/matl_data.rs
@@ -505,6 +505,9 @@ impl TryFrom<&MatlData> for Matl {
 
     fn try_from(value: &MatlData) -> Result<Self, Self::Error> {
         match (value.major_version, value.minor_version) {
+            (1, 5) => Ok(Self::V15 {
+                entries: value.entries.iter().map(Into::into).collect_vec().into(),
+            }),
             (1, 6) => Ok(Self::V16 {
                 entries: value.entries.iter().map(Into::into).collect_vec().into(),
             }),
-- 
2.43.0


From 2472d5707678f87f2f4c7110ebb83613e02709bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/14] fix: keep existing files intact when saving data that
 can't be written

---
 ssbh_lib/src/lib.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..f7a85a7 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,9 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
-        Ok(())
+        write_file_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))
     }
 }
 
@@ -251,9 +249,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
-                Ok(())
+                write_file_buffered(path, |c| write_ssbh_file(c, self, $magic))
             }
         }
     };
@@ -289,9 +285,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
-                Ok(())
+                write_file_buffered(path, |c| self.write(c))
             }
         }
     };
@@ -771,11 +765,11 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
     }
 }
 
-pub(crate) fn write_buffered<
-    W: Write + Seek,
+pub(crate) fn write_file_buffered<
+    P: AsRef<Path>,
     F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
 >(
-    writer: &mut W,
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,7 +777,9 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
+    // Only create the file after writing the data succeeds to avoid truncating existing files on error.
+    let mut file = fs::File::create(path)?;
+    file.write_all(cursor.get_ref())?;
     Ok(())
 }
 
-- 
2.43.0


From e400998d1ab873afe824c2a1b7c4d8be89724d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 09/14] fix: reject null bytes when deserializing strings

---
 ssbh_lib/src/strings.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..43f8571 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,14 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // Bytes after a null byte would be lost when saving.
+    if string.contains('\0') {
+        return Err(serde::de::Error::custom(
+            "expected a string without null bytes",
+        ));
+    }
+
+    Ok(string.into_bytes())
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0


From 8dd25210c3987724e08829a6d5e253263b78ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 10/14] fix: report unsupported input in the JSON tools

---
 ssbh_data_json/src/main.rs | 5 ++++-
 ssbh_lib_json/src/main.rs  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssbh_data_json/src/main.rs b/ssbh_data_json/src/main.rs
index 0bb7556..7968b24 100644
--- a/ssbh_data_json/src/main.rs
+++ b/ssbh_data_json/src/main.rs
@@ -101,6 +101,9 @@ fn main() {
                 })
                 .unwrap();
         }
-        _ => (),
+        extension => {
+            eprintln!("Unsupported file extension {extension:?}.");
+            std::process::exit(1);
+        }
     };
 }
diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 2a7b223..1b1a082 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -77,6 +77,9 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
         write_data(mesh_ex, get_output_path("numshexb"), MeshEx::write_to_file);
     } else if let Ok(adj) = serde_json::from_str::<Adj>(&json) {
         write_data(adj, get_output_path("adjb"), Adj::write_to_file);
+    } else {
+        eprintln!("The JSON data does not match any of the supported types.");
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From 3b7c856885ed568bdedeb35e744b7806e54412b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 11/14] fix: don't print debug output when reading 1.2 anims

---
 ssbh_data/src/anim_data.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index b3e0aff..90c3259 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -430,7 +430,6 @@ fn create_track_data_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<TrackData, error::Error> {
     // TODO: Add tests for this to buffers.rs.
-    println!("{:?}", track.name.to_string_lossy());
     for property in &track.properties.elements {
         let data = buffers.get(property.buffer_index as usize).ok_or(
             error::Error::BufferIndexOutOfRange {
@@ -442,50 +441,42 @@ fn create_track_data_v12(
         let mut reader = Cursor::new(&data.elements);
         let header: u32 = reader.read_le()?;
 
-        println!("{:?},{:x?}", property.name.to_string_lossy(), header);
-
         // TODO: Make this an enum?
         // TODO: Is the header multiple fields for const, data type, etc?
+        // TODO: Use the values instead of only checking that they can be read.
         match header {
             0x1003 => {
-                println!("{:x?}", reader.read_le::<f32>()?);
+                reader.read_le::<f32>()?;
             }
             0x2003 => {
-                println!("{:?}", reader.read_le::<(f32, f32)>()?);
+                reader.read_le::<(f32, f32)>()?;
             }
             0x3003 => {
-                println!("{:?}", reader.read_le::<Vector3>()?);
+                reader.read_le::<Vector3>()?;
             }
             0x4003 => {
-                println!("{:?}", reader.read_le::<Vector4>()?);
+                reader.read_le::<Vector4>()?;
             }
             0x1013 => {
-                println!("{:x?}", reader.read_le::<u16>()?);
+                reader.read_le::<u16>()?;
             }
             0x3409 => {
-                println!("{:?}", reader.read_le::<V12Test1>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                reader.read_le::<V12Test1>()?;
             }
             0x4308 => {
-                println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
                 // The size of the preceding data depends on the frame count.
-                println!(
-                    "Compressed: {:?} bytes",
-                    data.elements.len().saturating_sub(72 + 4)
-                );
+                reader.read_le::<V12Test3>()?;
             }
             0x4409 => {
-                let test = reader.read_le::<V12Test2>()?;
-                println!("{test:?}");
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                reader.read_le::<V12Test2>()?;
             }
-            x => println!("Unrecognized header: {x:?}"),
+            _ => (),
         }
     }
-    println!();
+
 
     // TODO: Set the track data based on type?
     // TODO: Set the scale options?
-- 
2.43.0


From ebac6e6d0ce320b76ae9df88a6a40d29e3a5b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 12/14] fix: report skel parent indices that don't fit when
 saving

---
 ssbh_data/src/skel_data.rs | 43 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..e57fa0c 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -76,6 +76,15 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The parent index of a bone can't be stored in a signed 16-bit integer.
+        #[error(
+            "parent index {} for bone {:?} exceeds the maximum supported value of {}",
+            parent_index,
+            bone,
+            i16::MAX
+        )]
+        ParentIndexOutOfRange { bone: String, parent_index: usize },
+
         /// An error occurred while calculating a transformation matrix.
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
@@ -163,20 +172,28 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index: match b.parent_index {
+                            Some(index) => i16::try_from(index).map_err(|_| {
+                                error::Error::ParentIndexOutOfRange {
+                                    bone: b.name.clone(),
+                                    parent_index: index,
+                                }
+                            })?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<Vec<_>, error::Error>>()?
+                .into(),
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From 8bfbb28da7c2613cdbaf1b198dbbf1d0eda0bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 13/14] fix: report adj values that don't fit when saving

---
 ssbh_data/src/adj_data.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ssbh_data/src/adj_data.rs b/ssbh_data/src/adj_data.rs
index 446ff6b..09ab617 100644
--- a/ssbh_data/src/adj_data.rs
+++ b/ssbh_data/src/adj_data.rs
@@ -129,6 +129,15 @@ impl AdjEntryData {
     }
 }
 
+fn u32_value(value: usize) -> std::io::Result<u32> {
+    u32::try_from(value).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("value {value} is too large to store in a 32-bit integer"),
+        )
+    })
+}
+
 impl TryFrom<&AdjData> for Adj {
     type Error = std::io::Error;
 
@@ -138,14 +147,17 @@ impl TryFrom<&AdjData> for Adj {
                 .entries
                 .iter()
                 .scan(0, |offset, e| {
-                    let entry = AdjEntry {
-                        mesh_object_index: e.mesh_object_index as u32,
-                        index_buffer_offset: *offset as u32,
-                    };
+                    let index_buffer_offset = *offset;
                     *offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
-                    Some(entry)
+                    Some((e, index_buffer_offset))
                 })
-                .collect(),
+                .map(|(e, index_buffer_offset)| {
+                    Ok(AdjEntry {
+                        mesh_object_index: u32_value(e.mesh_object_index)?,
+                        index_buffer_offset: u32_value(index_buffer_offset)?,
+                    })
+                })
+                .collect::<std::io::Result<Vec<_>>>()?,
             index_buffer: data
                 .entries
                 .iter()
-- 
2.43.0


From 78ca7c74e9695cbc4d57a6e6b8c2f0d3904cc23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:44 +0000
Subject: [PATCH 14/14] fix: write the magic of tuple structs and enums

SsbhWrite derive counted the magic of a tuple struct or an enum in the
size and did not write it, so the rest was read from the wrong place.
---
 ssbh_write_derive/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..8d9faaf 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -155,7 +155,10 @@ fn write_data_calculate_size_enum(
             }
         })
         .collect();
+    let write_magic = write_magic(write_options);
+
     let write_variants = quote! {
+        #write_magic
         match self {
             #(
                 #write_variants
@@ -221,9 +224,14 @@ fn write_data_calculate_size_unnamed(
 ) -> (TokenStream2, TokenStream2) {
     let add_fields = size_unnamed_fields(fields, true);
 
+    let write_magic = write_magic(write_options);
+
     let write_fields = write_unnamed_fields(fields, true);
     (
-        quote! { #(#write_fields)* },
+        quote! {
+            #write_magic
+            #(#write_fields)*
+        },
         generate_size_calculation(
             quote! {
                 size += ( #(#add_fields)+* );
@@ -240,12 +248,7 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
+    let write_magic = write_magic(write_options);
 
     let write_fields = quote! {
         #write_magic
@@ -357,6 +360,13 @@ fn write_pad_after(write_options: &WriteOptions) -> TokenStream2 {
     }
 }
 
+fn write_magic(write_options: &WriteOptions) -> TokenStream2 {
+    match &write_options.magic {
+        Some(magic) => quote! { #magic.ssbh_write(writer, data_ptr)?; },
+        None => quote! {},
+    }
+}
+
 fn write_aligned_after(write_options: &WriteOptions) -> TokenStream2 {
     match write_options.align_after {
         Some(num_bytes) => quote! {
-- 
2.43.0

