From c2f117008f5e56d136a7159a3ef9456eb7ee8d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 01/21] fix: size cluster tail offsets for the compressed size
 too

An incompressible cluster whose compressed form needs more bytes than its data
size was written with a truncated raw size and could not be read back.
---
 src/creator/content_pack/clusterwriter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..1c62b9f 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,12 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // `raw_data_size` is stored with `offset_size` too, and may be greater than the data size if
+    // the data is not compressible.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 19dfeee99788d2bdebc3089532b2b9165d159f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 02/21] fix: size signed integer columns for negative values
 and the sign bit

---
 src/creator/directory_pack/schema/property.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..6364afa 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -24,6 +24,12 @@ where
     }
 }
 
+/// Map a signed integer to an unsigned one (zigzag) which needs the same number of bytes,
+/// sign bit included.
+fn signed_extent(v: i64) -> u64 {
+    ((v << 1) ^ (v >> 63)) as u64
+}
+
 impl<T: Default> Default for PropertySize<T> {
     fn default() -> Self {
         PropertySize::Auto(Default::default())
@@ -96,7 +102,7 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +248,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_extent(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_extent(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From e276052a3c16e3107fbaf903829d8e90ec29463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 03/21] fix: read variants which are empty or end with
 zero-sized properties

---
 src/reader/directory_pack/layout/mod.rs | 67 ++++++++++++-------------
 1 file changed, 31 insertions(+), 36 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..6da6a39 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -14,8 +14,6 @@ pub(crate) use properties::{Properties, SharedProperties};
 pub(crate) use property::Property;
 use std::collections::HashMap;
 
-use std::cmp::Ordering;
-
 #[derive(Debug)]
 #[cfg_attr(feature = "explorable_serde", derive(serde::Serialize))]
 pub struct VariantPart {
@@ -131,54 +129,51 @@ impl Parsable for Layout {
             common_size += 1;
 
             let mut variant_size = 0;
-            let mut variants = Vec::new();
+            let mut variants: Vec<SharedProperties> = Vec::new();
             let mut variants_map = HashMap::new();
             let mut variant_def = Vec::new();
             let mut variant_name: Option<SmallString> = None;
             for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
+                if raw_property.is_variant_id() {
+                    // A new variant starts here, the previous one is complete.
+                    // (Its last properties may have a null size, so its size alone doesn't tell its end)
+                    if let Some(name) = variant_name.replace(raw_property.name) {
+                        if common_size + variant_size != entry_size {
+                            return Err(format_error!(
+                                "VariantId cannot be in the middle of a variant definition.",
+                                parser
+                            ));
+                        }
+                        let variant_def = std::mem::take(&mut variant_def);
+                        variants.push(Properties::new(common_size, variant_def).into());
+                        variants_map.insert(name, (variants.len() - 1) as u8);
+                        variant_size = 0;
+                    }
+                    continue;
+                }
+                if variant_name.is_none() {
                     return Err(format_error!(
                         "Variant definition must start with a VariantId.",
                         parser
                     ));
                 }
-                if raw_property.is_variant_id() && variant_name.is_some() {
+                variant_size += raw_property.size;
+                variant_def.push(raw_property);
+                if common_size + variant_size > entry_size {
                     return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
+                        &format!(
+                            "Sum of variant size ({common_size} + {variant_size}) cannot exceed the entry size ({entry_size})"
+                        ),
                         parser
                     ));
                 }
-                if raw_property.is_variant_id() {
-                    // This is a special property
-                    variant_name = Some(raw_property.name);
-                    continue;
-                }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
-                    Ordering::Greater => {
-                        return Err(format_error!(
-                            &format!(
-                                "Sum of variant size ({common_size} + {variant_size}) cannot exceed the entry size ({entry_size})"
-                            ),
-                            parser
-                        ))
-                    }
-                    Ordering::Equal => {
-                        variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
-                    }
-                    Ordering::Less => {
-                        /* Noting to do */
-                        continue;
-                    }
-                }
             }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
+            if let Some(name) = variant_name {
+                if common_size + variant_size != entry_size {
+                    return Err(format_error!("We cannot have left over variant definiton."));
+                }
+                variants.push(Properties::new(common_size, variant_def).into());
+                variants_map.insert(name, (variants.len() - 1) as u8);
             }
             if variants.len() != variant_count.into_usize() {
                 return Err(format_error!(
-- 
2.43.0


From 34dc0a076d73e8c89d29d6ef0d7961fc681b62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 04/21] fix: refuse to write a tail larger than what a sized
 offset can address

---
 src/creator/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..7123444 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,8 +36,19 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
-            let size = stream.write_serializer(serializer)?.into();
-            Ok(SizedOffset { size, offset })
+            let size = stream.write_serializer(serializer)?;
+            // A sized offset stores the size on 16 bits.
+            if size > 0xFF_FF {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    "Tail is too big to be referenced by a sized offset",
+                )
+                .into());
+            }
+            Ok(SizedOffset {
+                size: size.into(),
+                offset,
+            })
         }
     }
 
-- 
2.43.0


From b3bd0ae56e1741151ae420e19b50338a9a826c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 05/21] fix: refuse to write a layout with more keys or
 variants than the format can count

---
 src/creator/directory_pack/layout/entry.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..2dcffc4 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -14,6 +14,12 @@ pub(crate) struct Entry<PN: PropertyName, VN: VariantName> {
     pub entry_size: u16,
 }
 
+fn checked_u8(count: usize, msg: &'static str) -> IoResult<u8> {
+    count
+        .try_into()
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidInput, msg))
+}
+
 impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
     pub fn serialize_entry(
         &self,
@@ -35,8 +41,9 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        let count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();
+        Ok(checked_u8(count, "Too many keys in the layout")?.into())
     }
 }
 
@@ -44,8 +51,8 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
-        written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += ser.write_u8(checked_u8(self.variants.len(), "Too many variants")?)?;
+        written += self.key_count()?.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
-- 
2.43.0


From ab6dfa24a98e802d5030fde16591e10801098ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 06/21] fix: refuse to write a directory pack with more than
 255 value stores

---
 src/creator/directory_pack/directory_pack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..16e1383 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -92,6 +92,13 @@ pub struct FinalizedDirectoryPackCreator {
 
 impl FinalizedDirectoryPackCreator {
     pub fn write<O: InOutStream>(mut self, file: &mut O) -> Result<PackData> {
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Too many value stores in the directory pack",
+            )
+            .into());
+        }
         let origin_offset = file.stream_position()?;
         let to_skip = PackHeader::BLOCK_SIZE + DirectoryPackHeader::BLOCK_SIZE;
         file.seek(SeekFrom::Current(to_skip as i64))?;
-- 
2.43.0


From 652c78094b6ebd4b6c6b2b8677e9c7ed6f61a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 07/21] fix: refuse an array property whose inline part does
 not fit in the layout

---
 src/creator/directory_pack/schema/property.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 6364afa..3d4785f 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -201,6 +201,8 @@ impl<PN: PropertyName> Property<PN> {
     }
 
     pub fn new_array(fixed_array_len: usize, store_handle: StoreHandle, name: PN) -> Self {
+        // The layout stores the length of the inline part on 5 bits.
+        assert!(fixed_array_len <= 31);
         if fixed_array_len == 0 && store_handle.kind() == ValueStoreKind::Indexed {
             Property::IndirectArray { store_handle, name }
         } else {
-- 
2.43.0


From d10f208bc6c96afa59d56c3acb1b74462190e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 08/21] fix: entries with the same sort keys compare as equal

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 7d1c3c89c905c6a02461add768809b6205c6c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 09/21] fix: start a ByteStream made from a ByteRegion at the
 region's beginning

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..aff9779 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let begin = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, begin)
     }
 }
-- 
2.43.0


From d92eab900c7d27f9189c559631b18b77e9f22e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 10/21] fix: look for the pack by identity in the file found at
 its recorded location

---
 src/reader/locator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..3a9836f 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,13 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The file may be the pack itself or a container in which the pack is stored.
+            // In any case, it is the right pack only if it has the right uuid.
+            let container_pack = open_as_container_pack(FileSource::open(path)?.into())?;
+            Ok(container_pack.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From ae51196245402e6a6d63409e627b0033938d0482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 11/21] fix: count the check block in the size of a container
 pack

---
 src/creator/container_pack.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..83a5e27 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,9 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size = Size::from(
+            check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE,
+        );
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From 624e064fba74ee135197ddcd4feadb290edd23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 12/21] fix: open a container embedded at the end of a file
 which is not a pack

---
 src/reader/jubako.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..83f8797 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -31,28 +31,40 @@ pub struct Container {
     packs: Vec<OnceLock<ContentPack>>,
 }
 
+/// Locate the pack ending at the end of the reader, using its tail (a mirror of its header).
+fn locate_from_tail(reader: &Reader) -> Result<(PackHeader, Offset)> {
+    let tail_size = Size::from(PackHeader::BLOCK_SIZE);
+    if reader.size() < tail_size {
+        return Err(format_error!("File is too small to end with a pack"));
+    }
+    let mut tail = [0u8; PackHeader::BLOCK_SIZE];
+    reader
+        .create_stream((reader.size() - tail_size).into(), tail_size, false)?
+        .read_exact(&mut tail)?;
+    tail.reverse();
+    let pack_header = Reader::from(tail).parse_block_at::<PackHeader>(Offset::zero())?;
+    if pack_header.file_size > reader.size() {
+        return Err(format_error!("Pack is bigger than the file it ends"));
+    }
+    let origin = reader.size() - pack_header.file_size;
+    Ok((pack_header, origin.into()))
+}
+
 /// Open the reader as a container pack.
 /// Blindly opening from a Reader is a bit complex as:
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
-    // Check at beginning
-    // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
-            //Check at end
-            let mut buffer_reader = [0u8; 64];
-            reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
-                .read_exact(&mut buffer_reader)?;
-            buffer_reader.reverse();
-            let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-            let origin = reader.size() - pack_header.file_size;
-            (pack_header, origin.into())
-        }
+        Err(err) => match locate_from_tail(&reader) {
+            Ok(found) => found,
+            Err(_) => {
+                // Parse again without Check as we want a nice message to the user if version has changed.
+                reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+                return Err(err);
+            }
+        },
     };
 
     match pack_header.magic {
-- 
2.43.0


From b0a8c8f3309e75ea77ac2c2c2ae1b2ef09482450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 13/21] fix: read the manifest header where it is when
 rewriting a location

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..958b072 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -52,7 +52,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From e06e555cd1271a979e23f7bf4ccfcbd0e58a2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 14/21] fix: record the size of a pack's check info without its
 CRC

---
 src/creator/manifest_pack.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/creator/manifest_pack.rs b/src/creator/manifest_pack.rs
index 5d5b0e2..b87cad8 100644
--- a/src/creator/manifest_pack.rs
+++ b/src/creator/manifest_pack.rs
@@ -50,9 +50,7 @@ impl ManifestPackCreator {
 
         for ((pack_data, locator), free_data_id) in self.packs.into_iter().zip(free_data_ids) {
             let check_info_pos = file.stream_position()? - origin_offset;
-            file.ser_write(&pack_data.check_info)?;
-            let check_info_size = file.stream_position()? - origin_offset - check_info_pos;
-            let check_info_size: usize = check_info_size.try_into().unwrap();
+            let check_info_size = file.ser_write(&pack_data.check_info)?;
             pack_infos.push(PackInfo::new(
                 pack_data,
                 0,
-- 
2.43.0


From 6e145e4b8d2799c037b41dd87565f69b8a08da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 15/21] fix: accept a pack whose id is the greatest one

---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 83f8797..2fda76f 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -122,7 +122,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 6d3a3a3bb6912164f803386f94935559df3d0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 16/21] fix: sort all entry stores before finalizing any of
 them

The size and default value of a property bound to an entry of another store were computed before
that other store was sorted, so the property could be stored as a position the entry no longer had.
---
 src/creator/directory_pack/directory_pack.rs |  7 ++-
 src/creator/directory_pack/entry_store.rs    | 61 +++++++++++++-------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 16e1383..e8ef256 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -5,7 +5,7 @@ use crate::common::{
 };
 use crate::creator::private::WritableTell;
 use crate::creator::{PackData, Result};
-use entry_store::EntryStoreTrait;
+use entry_store::{sort_entry_stores, EntryStoreTrait};
 use std::io::{BufWriter, Seek, SeekFrom, Write};
 use value_store::StoreHandle;
 
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         info!("----- Finalize value_stores -----");
@@ -63,6 +63,9 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        sort_entry_stores(&mut self.entry_stores);
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..012c9f6 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,13 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Set the final position of the entries.
+    ///
+    /// Return false if the entries were not sorted yet. As sort keys may be bound to the position
+    /// of other entries, entries may have to be sorted again after that.
+    fn sort(&mut self) -> bool;
+
+    /// Must be called when entries of all stores are at their final position.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,28 +78,25 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
-        set_entry_idx(&mut self.entries);
-        if let Some(keys) = &self.schema.sort_keys {
-            let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
-            self.entries.par_sort_unstable_by(compare);
-            set_entry_idx(&mut self.entries);
-            let mut watchdog = 50;
-            while !self
-                .entries
-                .windows(2)
-                .all(|w| w[0].compare(&keys, &w[1]).is_le())
-            {
-                debug!(".");
-                self.entries.par_sort_unstable_by(compare);
-                set_entry_idx(&mut self.entries);
-                watchdog -= 1;
-                if watchdog == 0 {
-                    panic!("Cannot sort entry store");
-                }
-            }
+    fn sort(&mut self) -> bool {
+        let Some(keys) = &self.schema.sort_keys else {
+            return true;
+        };
+        let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
+        if self
+            .entries
+            .windows(2)
+            .all(|w| compare(&w[0], &w[1]).is_le())
+        {
+            return true;
         }
+        debug!(".");
+        self.entries.par_sort_unstable_by(compare);
+        set_entry_idx(&mut self.entries);
+        false
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
@@ -107,6 +111,23 @@ where
     }
 }
 
+/// Sort all the stores.
+///
+/// The values of a store (as its sort keys) may be bound to the position of entries in other
+/// stores, so all positions must be known before any store is finalized.
+pub(super) fn sort_entry_stores(stores: &mut [Box<dyn EntryStoreTrait>]) {
+    let mut watchdog = 50;
+    while !stores
+        .iter_mut()
+        .fold(true, |sorted, store| store.sort() && sorted)
+    {
+        if watchdog == 0 {
+            panic!("Cannot sort entry store");
+        }
+        watchdog -= 1;
+    }
+}
+
 struct FinalEntryStore<PN, VN, Entry>
 where
     PN: PropertyName,
-- 
2.43.0


From 6fd5aad9f2ef17015db829fb54c862bb07f7749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 17/21] fix: report an error when a compressed cluster cannot
 be decoded

A decoding error aborted the process (unwrap in the decompression pool) and
compressed data ending too early made the worker loop and the readers wait
forever. Record the failure and make the waiting readers return it.
---
 src/bases/io/compression.rs | 66 +++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..8640024 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -27,11 +27,19 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+#[derive(Default)]
+struct Progress {
+    // Number of bytes which can be read.
+    decoded: usize,
+    // The reason why no more bytes will be decoded before `total_size`, if any.
+    failure: Option<String>,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
@@ -40,7 +48,7 @@ struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -48,19 +56,29 @@ unsafe impl Sync for SyncVecRd {}
 
 impl SyncVecRd {
     #[inline]
-    pub fn wait_while<F>(&self, function: F) -> usize
+    pub fn wait_while<F>(&self, function: F) -> std::io::Result<usize>
     where
         F: Fn(&mut usize) -> bool,
     {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        let mut progress = cvar
+            .wait_while(lock.lock().unwrap(), |p| {
+                p.failure.is_none() && function(&mut p.decoded)
+            })
+            .unwrap();
+        if function(&mut progress.decoded) {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                progress.failure.clone().unwrap_or_default(),
+            ));
+        }
+        Ok(progress.decoded)
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().decoded
     }
 
     #[inline]
@@ -77,7 +95,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(Progress::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -103,7 +121,7 @@ pub(crate) struct SeekableDecoder {
 
 fn decode_to_end<T: Read + Send>(
     mut decoder: T,
-    mut buffer: SyncVecWr,
+    buffer: &mut SyncVecWr,
     chunk_size: usize,
 ) -> std::io::Result<()> {
     let total_size = buffer.total_size;
@@ -113,13 +131,20 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                format!("Compressed data ends after {uncompressed} bytes instead of {total_size}"),
+            ));
+        }
+        uncompressed += read;
         let (lock, cvar) = &*buffer.decoded;
-        let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        let mut progress = lock.lock().unwrap();
+        progress.decoded = uncompressed;
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -128,7 +153,7 @@ fn decode_to_end<T: Read + Send>(
 
 impl SeekableDecoder {
     pub fn new<T: Read + Send + 'static>(decoder: T, size: ASize) -> Self {
-        let (write_hand, read_hand) = create_sync_vec(size.into_usize());
+        let (mut write_hand, read_hand) = create_sync_vec(size.into_usize());
 
         DECOMPRESSION_POOL
             .get_or_init(|| {
@@ -139,14 +164,19 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                if let Err(e) = decode_to_end(decoder, &mut write_hand, 4 * 1024) {
+                    let (lock, cvar) = &*write_hand.decoded;
+                    lock.lock().unwrap().failure = Some(e.to_string());
+                    cvar.notify_all();
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        self.buffer.wait_while(|d: &mut usize| *d < end)?;
+        Ok(())
     }
 
     #[inline]
@@ -164,7 +194,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +207,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +225,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From eb81e66e725476b5c19f328fe5c2dd14d5a36f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 18/21] fix: return an error when a region is not inside its
 source

Cutting a region out of a truncated or damaged file was checked by
debug_assert only: it panicked in debug, and in release it built a region on
bytes the file does not have (slice panics, short buffers, mmap past the end
of the file).
---
 src/bases/io/buffer.rs    |  6 +++++-
 src/bases/io/file.rs      | 16 ++++++++++++++++
 src/bases/reader.rs       |  6 +++---
 src/bases/types/range.rs  | 22 ++++++++++++++++++++++
 src/reader/byte_region.rs |  4 ++--
 src/reader/byte_slice.rs  |  4 ++--
 6 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/bases/io/buffer.rs b/src/bases/io/buffer.rs
index 5d0c16b..de636c6 100644
--- a/src/bases/io/buffer.rs
+++ b/src/bases/io/buffer.rs
@@ -30,7 +30,11 @@ where
     }
 
     fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> Result<Cow<[u8]>> {
-        debug_assert!(region.end().force_into_usize() <= self.as_ref().len());
+        let our_size = self.as_ref().len();
+        let end = region.end().force_into_usize();
+        if end > our_size || block_check.size() > our_size - end {
+            return Err(format_error!(format!("Out of slice. {end} > {our_size}")));
+        }
         if let BlockCheck::Crc32 = block_check {
             let full_slice = &self.as_ref()[region.begin().force_into_usize()
                 ..region.end().force_into_usize() + BlockCheck::Crc32.size()];
diff --git a/src/bases/io/file.rs b/src/bases/io/file.rs
index 3a560f9..9bd76d9 100644
--- a/src/bases/io/file.rs
+++ b/src/bases/io/file.rs
@@ -34,6 +34,17 @@ impl FileSource {
             path: "".into(),
         })
     }
+
+    // Mapping or allocating memory for a region which is not in the file is not safe.
+    fn check_bounds(&self, end: Offset, check_size: usize) -> Result<()> {
+        match end.into_u64().checked_add(check_size as u64) {
+            Some(end) if end <= self.len => Ok(()),
+            _ => Err(format_error!(format!(
+                "Out of file. {end} > {}",
+                self.len
+            ))),
+        }
+    }
 }
 
 impl Deref for FileSource {
@@ -80,6 +91,7 @@ impl Source for FileSource {
     }
 
     fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> Result<Cow<[u8]>> {
+        self.check_bounds(region.end(), block_check.size())?;
         let mut buf = vec![0; region.size().into_usize() + block_check.size()];
         self.read_exact(region.begin(), &mut buf)?;
         if let BlockCheck::Crc32 = block_check {
@@ -95,6 +107,7 @@ impl Source for FileSource {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        self.check_bounds(region.end(), block_check.size())?;
         if !move_to_memory(region) || !in_memory {
             if let BlockCheck::Crc32 = block_check {
                 warn!("Check of not memory block is not implemented");
@@ -111,6 +124,9 @@ impl Source for FileSource {
             f.by_ref()
                 .take(full_size.into_u64())
                 .read_to_end(&mut buf)?;
+            if buf.len() != full_size.into_usize() {
+                return Err(format_error!("Unexpected end of file"));
+            }
             if let BlockCheck::Crc32 = block_check {
                 assert_slice_crc(&buf)?;
             }
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..23b1b32 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,7 +98,7 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        let region = self.region.cut_rel(offset, size);
+        let region = self.region.try_cut_rel(offset, size)?;
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
 
@@ -161,7 +161,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
     }
@@ -176,7 +176,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..ae51f54 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -60,6 +60,28 @@ impl Region {
         );
         Self::new(begin, end)
     }
+
+    /// Same as `cut_rel` but return an error if the cut is not inside the region.
+    pub(crate) fn try_cut_rel(&self, offset: Offset, size: Size) -> crate::bases::Result<Self> {
+        let available = self.size().into_u64();
+        if offset.into_u64() > available || size.into_u64() > available - offset.into_u64() {
+            return Err(format_error!(format!(
+                "Out of region. {offset} + {size} > {available}"
+            )));
+        }
+        Ok(self.cut_rel(offset, size))
+    }
+
+    #[inline]
+    pub(crate) fn try_cut_rel_asize(
+        &self,
+        offset: Offset,
+        size: ASize,
+    ) -> crate::bases::Result<ARegion> {
+        let region = self.try_cut_rel(offset, size.into())?;
+        Ok(ARegion::new(region.begin(), region.end()))
+    }
+
     #[inline]
     pub(crate) fn cut_rel_asize(&self, offset: Offset, size: ASize) -> ARegion {
         let begin = self.begin() + offset;
diff --git a/src/reader/byte_region.rs b/src/reader/byte_region.rs
index c225ba3..9aa4ce9 100644
--- a/src/reader/byte_region.rs
+++ b/src/reader/byte_region.rs
@@ -52,7 +52,7 @@ impl ByteRegion {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteRegion actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -83,7 +83,7 @@ impl RandomParser for ByteRegion {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
diff --git a/src/reader/byte_slice.rs b/src/reader/byte_slice.rs
index 01c59d5..ca0db5a 100644
--- a/src/reader/byte_slice.rs
+++ b/src/reader/byte_slice.rs
@@ -47,7 +47,7 @@ impl<'s> ByteSlice<'s> {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteSlice actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -72,7 +72,7 @@ impl<'s> RandomParser for ByteSlice<'s> {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
-- 
2.43.0


From 6182b23f11e891cf4ae635a8f64e106e3a39f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 19/21] fix: return an error on inconsistent sizes in cluster
 and value store tails

The parsers asserted on them, or tried to allocate room for any value count.
---
 src/reader/content_pack/cluster.rs       | 12 +++++++++++-
 src/reader/directory_pack/value_store.rs | 19 ++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..52eadfb 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -110,6 +110,9 @@ impl Cluster {
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
         self.build_plain_reader()?;
+        if index.into_usize() + 1 >= self.blob_offsets.len() {
+            return Err(format_error!("Blob is not in the cluster"));
+        }
         let offset = self.blob_offsets[index.into_usize()];
         let end_offset = self.blob_offsets[index.into_usize() + 1];
         let size = end_offset - offset;
@@ -137,6 +140,9 @@ impl DataBlockParsable for Cluster {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (cluster_builder, raw_data_size) = intermediate;
+        if !Offset::from(raw_data_size).is_valid(header_offset.into()) {
+            return Err(format_error!("Cluster data is not in the pack"));
+        }
         let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
         let reader = if cluster_builder.compression == CompressionType::None {
             assert_eq!(cluster_builder.data_size, raw_data_size);
@@ -167,6 +173,7 @@ impl Parsable for ClusterBuilder {
         let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
         let uninit = blob_offsets.spare_capacity_mut();
         let mut first = true;
+        let mut previous = Offset::zero();
         for elem in &mut uninit[0..blob_count] {
             let value: Offset = if first {
                 first = false;
@@ -174,7 +181,10 @@ impl Parsable for ClusterBuilder {
             } else {
                 parser.read_usized(header.offset_size)?.into()
             };
-            assert!(value.is_valid(data_size));
+            if value < previous || !value.is_valid(data_size) {
+                return Err(format_error!("Invalid blob offset", parser));
+            }
+            previous = value;
             elem.write(value);
         }
         unsafe { blob_offsets.set_len(blob_count) }
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 325575d..59972b7 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -116,11 +116,15 @@ impl Parsable for ValueStoreBuilder {
                     unimplemented!()
                 };
 
-                // [FIXME] A lot of value means a lot of allocation.
-                // A wrong value here (or a carefully choosen one) may break our program.
+                // Each value (but the first) has its offset in the tail we are parsing, which is
+                // at most 64kB. Do not allocate for values which cannot be there.
+                if value_count > u16::MAX as usize + 1 {
+                    return Err(format_error!("Too many values", parser));
+                }
                 let mut value_offsets: Vec<Offset> = Vec::with_capacity(value_count + 1);
                 let uninit = value_offsets.spare_capacity_mut();
                 let mut first = true;
+                let mut previous = Offset::zero();
                 for elem in &mut uninit[0..value_count] {
                     let value: Offset = if first {
                         first = false;
@@ -128,7 +132,10 @@ impl Parsable for ValueStoreBuilder {
                     } else {
                         parser.read_usized(offset_size)?.into()
                     };
-                    assert!(value.is_valid(data_size));
+                    if value < previous || !value.is_valid(data_size) {
+                        return Err(format_error!("Invalid value offset", parser));
+                    }
+                    previous = value;
                     elem.write(value);
                 }
                 unsafe { value_offsets.set_len(value_count) }
@@ -151,6 +158,12 @@ impl DataBlockParsable for ValueStore {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (store_builder, data_size) = intermediate;
+        let stored_size = data_size
+            .into_u64()
+            .saturating_add(BlockCheck::Crc32.size() as u64);
+        if stored_size > header_offset.into_u64() {
+            return Err(format_error!("Value store data is not in the pack"));
+        }
         let reader = reader.cut_check(
             header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
             data_size,
-- 
2.43.0


From 0d59a92273289016882c09b9bd521d289c335acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 20/21] fix: return an error when the directory pack cannot be
 located

---
 src/reader/jubako.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 2fda76f..abecb51 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -117,7 +117,9 @@ impl Container {
         let directory_pack = Arc::new(DirectoryPack::new(
             locator
                 .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
+                .ok_or_else(|| -> Error {
+                    format_error!("Impossible to locate the directory_pack")
+                })?,
         )?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
-- 
2.43.0


From 0a9d24c858dc5dbc1dc63c0a516b92ff595c6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 21/21] fix: refuse a destination that is also the path of the
 content pack

---
 src/creator/basic_creator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..e3511d8 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -75,7 +75,16 @@ impl BasicCreator {
         let atomic_content_pack_file = if let ConcatMode::OneFile = concat_mode {
             AtomicOutFile::new(&outpath)?
         } else {
-            AtomicOutFile::new(new_with_extension(&outpath, "jbkc"))?
+            let content_path = new_with_extension(&outpath, "jbkc");
+            if content_path == outpath {
+                // The content pack would take the place of the entry point, then be overwritten by it.
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidInput,
+                    format!("{outpath} is also the path of the content pack"),
+                )
+                .into());
+            }
+            AtomicOutFile::new(content_path)?
         };
         // We may have only one (content) pack in the container so container may not be necessary.
         // But let's put all in a container. It is simpler and it can simplify things if
-- 
2.43.0

