From a1acdd8a7df2b5f479f388c9ab835e8f536fa9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 01/18] fix: size cluster offsets for the raw (compressed) size
 too

Compressing incompressible data may grow it past the byte width needed by
the uncompressed size; the raw size was then written truncated.
---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..6617947 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // The width must fit both sizes: compressed data may be bigger than the original data.
+    let offset_size = needed_bytes(std::cmp::max(
+        cluster.data_size().into_u64(),
+        raw_data_size.into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 3b9b043ad1c6cc0640ca5a3f73c820ca299d17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 02/18] fix: size signed integer columns on magnitude and sign

The width of a signed column was computed on the maximum value only, so
negative values (and positive ones using the sign bit) were stored altered.
---
 src/creator/directory_pack/schema/property.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..bb0f07c 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -88,6 +88,13 @@ impl<T> From<ValueCounter<T>> for Option<T> {
     }
 }
 
+/// A unsigned value needing as many bytes as the two's complement encoding of `v`
+/// (magnitude and sign bit).
+fn signed_width(v: i64) -> u64 {
+    let magnitude = if v < 0 { !v } else { v };
+    (magnitude as u64) << 1
+}
+
 pub enum Property<PN: PropertyName> {
     UnsignedInt {
         counter: ValueCounter<u64>,
@@ -96,7 +103,8 @@ pub enum Property<PN: PropertyName> {
     },
     SignedInt {
         counter: ValueCounter<i64>,
-        size: PropertySize<i64>,
+        /// Size of the values, as seen through `signed_width`.
+        size: PropertySize<u64>,
         name: PN,
     },
     Array {
@@ -242,11 +250,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_width(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_width(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 7ec1b9edfe24f9ff9d88120ee7ff4438e811cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 03/18] fix: refuse to reference a tail bigger than 65535 bytes

The size of a SizedOffset is stored on 16 bits. A bigger tail was written
with a truncated size and the resulting pack could not be read.
---
 src/creator/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index b09300f..8790a74 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -36,8 +36,22 @@ mod private {
             let offset = stream.tell();
             let mut serializer = Serializer::new(BlockCheck::Crc32);
             self.serialize_tail(&mut serializer)?;
-            let size = stream.write_serializer(serializer)?.into();
-            Ok(SizedOffset { size, offset })
+            let size = stream.write_serializer(serializer)?;
+            if size > u16::MAX as usize {
+                // The size of a `SizedOffset` is stored on 16 bits.
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!(
+                        "Tail is too big to be referenced ({size} bytes, max {})",
+                        u16::MAX
+                    ),
+                )
+                .into());
+            }
+            Ok(SizedOffset {
+                size: size.into(),
+                offset,
+            })
         }
     }
 
-- 
2.43.0


From 54fab34c0ca2802cdc354ca4afc668adac23c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 04/18] fix: entries with the same sort keys compare as equal

Comparing them as Greater made the creation of any sorted store with
duplicated keys panic ('Cannot sort entry store').
---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 8dfc5abd1f36dd61f5a459d4a073954675ca4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 05/18] fix: refuse schemas the layout cannot represent

The inline prefix of an array is stored on 5 bits, and the numbers of
variants, properties and value stores on one byte. Bigger values were
silently truncated, producing packs which could not be read back.
---
 src/creator/directory_pack/directory_pack.rs  | 11 ++++++++
 src/creator/directory_pack/layout/entry.rs    | 25 ++++++++++++++++---
 src/creator/directory_pack/layout/mod.rs      |  2 +-
 src/creator/directory_pack/layout/property.rs |  3 +++
 src/creator/directory_pack/schema/mod.rs      |  4 +++
 src/creator/directory_pack/schema/property.rs |  5 ++++
 6 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..58d7a4d 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,17 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "Too many value stores ({}, max {})",
+                    self.value_stores.len(),
+                    u8::MAX
+                ),
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..36aeefe 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -6,6 +6,16 @@ use crate::creator::directory_pack::EntryTrait;
 use crate::creator::Result;
 use std::collections::HashMap;
 
+/// Counts are stored on one byte in the layout.
+fn to_count(len: usize, what: &str) -> IoResult<Count<u8>> {
+    u8::try_from(len).map(Count::from).map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("Too many {what} in the layout ({len}, max {})", u8::MAX),
+        )
+    })
+}
+
 #[derive(Debug)]
 pub(crate) struct Entry<PN: PropertyName, VN: VariantName> {
     pub common: Properties<PN>,
@@ -35,8 +45,15 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn variant_count(&self) -> IoResult<Count<u8>> {
+        to_count(self.variants.len(), "variants")
+    }
+
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        to_count(
+            self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>(),
+            "properties",
+        )
     }
 }
 
@@ -44,8 +61,8 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
-        written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += self.variant_count()?.serialize(ser)?;
+        written += self.key_count()?.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
diff --git a/src/creator/directory_pack/layout/mod.rs b/src/creator/directory_pack/layout/mod.rs
index ae1d834..0cc5792 100644
--- a/src/creator/directory_pack/layout/mod.rs
+++ b/src/creator/directory_pack/layout/mod.rs
@@ -4,6 +4,6 @@ mod property;
 
 pub(crate) use entry::Entry;
 pub(crate) use properties::Properties;
-pub(crate) use property::Property;
+pub(crate) use property::{Property, MAX_FIXED_ARRAY_LEN};
 
 use super::{StoreHandle, Value};
diff --git a/src/creator/directory_pack/layout/property.rs b/src/creator/directory_pack/layout/property.rs
index 92e9667..b70e259 100644
--- a/src/creator/directory_pack/layout/property.rs
+++ b/src/creator/directory_pack/layout/property.rs
@@ -3,6 +3,9 @@ use super::StoreHandle;
 use crate::bases::Serializable;
 use crate::bases::*;
 
+/// The fixed len of a array is stored on 5 bits.
+pub(crate) const MAX_FIXED_ARRAY_LEN: usize = 31;
+
 pub(crate) enum Property<PN: PropertyName> {
     VariantId(&'static str),
     Array {
diff --git a/src/creator/directory_pack/schema/mod.rs b/src/creator/directory_pack/schema/mod.rs
index b249dd1..a06ffc6 100644
--- a/src/creator/directory_pack/schema/mod.rs
+++ b/src/creator/directory_pack/schema/mod.rs
@@ -44,6 +44,10 @@ impl<PN: PropertyName, VN: VariantName> Schema<PN, VN> {
     }
 
     pub(crate) fn finalize(self) -> layout::Entry<PN, VN> {
+        assert!(
+            self.variants.len() <= u8::MAX as usize,
+            "Too many variants in the schema"
+        );
         let common_layout = self.common.finalize(None);
         let mut variants_layout = Vec::new();
         let mut variants_map = HashMap::new();
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index bb0f07c..9268d9e 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -330,6 +330,11 @@ impl<PN: PropertyName> Property<PN> {
                 store_handle,
                 name,
             } => {
+                assert!(
+                    fixed_array_len <= layout::MAX_FIXED_ARRAY_LEN,
+                    "fixed_array_len cannot exceed {}",
+                    layout::MAX_FIXED_ARRAY_LEN
+                );
                 let value_id_size = store_handle.key_size();
                 layout::Property::Array {
                     array_len_size: Some(max_array_size.into()),
-- 
2.43.0


From 6bb60180fd2bfa75ea17d6011bd830626ea29807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 06/18] fix: delimit variants by their VariantId when reading a
 layout

As specified. Closing a variant as soon as its properties filled the entry
made unreadable the stores with a variant without data or with trailing
properties stored as default value (so without size).
---
 src/reader/directory_pack/layout/mod.rs | 85 ++++++++++---------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..c368070 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -3,7 +3,7 @@ mod property;
 
 use super::builder::{VariantIdBuilder, VariantIdProperty};
 // Reuse from super to allow sub module to use it.
-use super::raw_layout::RawLayout;
+use super::raw_layout::{RawLayout, RawProperty};
 use crate::bases::*;
 
 #[cfg(feature = "explorable")]
@@ -14,8 +14,6 @@ pub(crate) use properties::{Properties, SharedProperties};
 pub(crate) use property::Property;
 use std::collections::HashMap;
 
-use std::cmp::Ordering;
-
 #[derive(Debug)]
 #[cfg_attr(feature = "explorable_serde", derive(serde::Serialize))]
 pub struct VariantPart {
@@ -130,71 +128,58 @@ impl Parsable for Layout {
             let variant_id_offset = Offset::from(common_size);
             common_size += 1;
 
-            let mut variant_size = 0;
-            let mut variants = Vec::new();
-            let mut variants_map = HashMap::new();
-            let mut variant_def = Vec::new();
-            let mut variant_name: Option<SmallString> = None;
+            // A variant definition starts at a VariantId and stops at the next one.
+            let mut variant_defs: Vec<(SmallString, usize, Vec<RawProperty>)> = Vec::new();
             for raw_property in property_iter {
-                if !raw_property.is_variant_id() && variant_name.is_none() {
-                    return Err(format_error!(
-                        "Variant definition must start with a VariantId.",
-                        parser
-                    ));
-                }
-                if raw_property.is_variant_id() && variant_name.is_some() {
-                    return Err(format_error!(
-                        "VariantId cannot be in the middle of a variant definition.",
-                        parser
-                    ));
-                }
                 if raw_property.is_variant_id() {
-                    // This is a special property
-                    variant_name = Some(raw_property.name);
+                    variant_defs.push((raw_property.name, common_size, Vec::new()));
                     continue;
                 }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
-                match variant_size.cmp(&(entry_size - common_size)) {
-                    Ordering::Greater => {
-                        return Err(format_error!(
-                            &format!(
-                                "Sum of variant size ({common_size} + {variant_size}) cannot exceed the entry size ({entry_size})"
-                            ),
-                            parser
-                        ))
-                    }
-                    Ordering::Equal => {
-                        variants.push(Properties::new(common_size, variant_def).into());
-                        variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
-                        variant_def = Vec::new();
-                        variant_size = 0;
-                        variant_name = None;
-                    }
-                    Ordering::Less => {
-                        /* Noting to do */
-                        continue;
-                    }
-                }
-            }
-            if !variant_def.is_empty() {
-                return Err(format_error!("We cannot have left over variant definiton."));
+                // First property is a variant id, else it would be in the common properties.
+                let (_, size, properties) = variant_defs.last_mut().unwrap();
+                *size += raw_property.size;
+                properties.push(raw_property);
             }
-            if variants.len() != variant_count.into_usize() {
+            if variant_defs.len() != variant_count.into_usize() {
                 return Err(format_error!(
                     &format!(
                         "Entry declare ({variant_count}) variants but properties define ({})",
-                        variants.len()
+                        variant_defs.len()
                     ),
                     parser
                 ));
             }
+            let mut variants = Vec::new();
+            let mut variants_map = HashMap::new();
+            for (name, size, properties) in variant_defs {
+                if size != entry_size {
+                    return Err(format_error!(
+                        &format!(
+                            "Size of the variant ({size}) must be the entry size ({entry_size})"
+                        ),
+                        parser
+                    ));
+                }
+                variants.push(Properties::new(common_size, properties).into());
+                variants_map.insert(name, variants.len() as u8 - 1);
+            }
             Some(VariantPart {
                 variant_id_offset,
                 variants: variants.into_boxed_slice(),
                 names: variants_map,
             })
         } else {
+            if property_iter.next().is_some() {
+                return Err(format_error!("VariantId without variant", parser));
+            }
+            if common_size > entry_size {
+                return Err(format_error!(
+                    &format!(
+                        "Size of the properties ({common_size}) cannot exceed the entry size ({entry_size})"
+                    ),
+                    parser
+                ));
+            }
             None
         };
         Ok(Self {
-- 
2.43.0


From 29f5189a1253d1ec3428d2e53dade22663e215ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 07/18] fix: sort all the entry stores before sizing their
 properties

A property may refer to the position of an entry of another store. It was
sized (or stored as default) with the position before that store is sorted,
then written truncated or refused.
---
 src/creator/directory_pack/directory_pack.rs | 18 ++++++++++-
 src/creator/directory_pack/entry_store.rs    | 33 ++++++++++++++++----
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 58d7a4d..fe9575b 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         if self.value_stores.len() > u8::MAX as usize {
@@ -74,6 +74,22 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        for entry_store in &mut self.entry_stores {
+            entry_store.sort();
+        }
+        // A store may be sorted on positions in another store, which may have just changed.
+        let mut watchdog = 50;
+        while !self.entry_stores.iter().all(|e| e.is_sorted()) {
+            for entry_store in &mut self.entry_stores {
+                entry_store.sort();
+            }
+            watchdog -= 1;
+            if watchdog == 0 {
+                panic!("Cannot sort entry stores");
+            }
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..b9e9845 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -22,6 +22,17 @@ where
         .for_each(|(idx, entry)| entry.set_idx((idx as u32).into()))
 }
 
+fn is_sorted<PN, VN, Entry>(entries: &[Entry], keys: &Vec<PN>) -> bool
+where
+    PN: PropertyName,
+    VN: VariantName,
+    Entry: FullEntryTrait<PN, VN>,
+{
+    entries
+        .windows(2)
+        .all(|w| w[0].compare(&keys, &w[1]).is_le())
+}
+
 pub struct EntryStore<PN, VN, Entry>
 where
     PN: PropertyName,
@@ -62,6 +73,11 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Put the entries at their final position.
+    fn sort(&mut self);
+    fn is_sorted(&self) -> bool;
+    /// Size the properties. The positions of the entries of all the stores must be final
+    /// as properties may refer to them.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,18 +87,14 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn sort(&mut self) {
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
             self.entries.par_sort_unstable_by(compare);
             set_entry_idx(&mut self.entries);
             let mut watchdog = 50;
-            while !self
-                .entries
-                .windows(2)
-                .all(|w| w[0].compare(&keys, &w[1]).is_le())
-            {
+            while !is_sorted(&self.entries, keys) {
                 debug!(".");
                 self.entries.par_sort_unstable_by(compare);
                 set_entry_idx(&mut self.entries);
@@ -92,7 +104,16 @@ where
                 }
             }
         }
+    }
 
+    fn is_sorted(&self) -> bool {
+        match &self.schema.sort_keys {
+            None => true,
+            Some(keys) => is_sorted(&self.entries, keys),
+        }
+    }
+
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From 948df8755fe6c110f2b6fe05270cffbf0c3eabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 08/18] fix: a stream created from a region starts at the
 region's begin

---
 src/reader/byte_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..aff9779 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,7 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        let begin = bregion.region.begin();
+        Self::new_from_parts(bregion.source, bregion.region, begin)
     }
 }
-- 
2.43.0


From 0535c9fd55dcbcd233cbb96251cd035a12e7b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 09/18] fix: count the check block in the declared size of a
 container pack

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..f92f26f 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size =
+            Size::from(check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE);
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From cc89bfffdd7ef2697cf6563d5739c02761a1d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 10/18] fix: open packs embedded at the end of another file

---
 src/reader/jubako.rs | 43 +++++++++++++++++++++++++++++--------------
 src/reader/mod.rs    |  1 +
 src/tools.rs         |  6 +-----
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..d6d20a8 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -31,28 +31,43 @@ pub struct Container {
     packs: Vec<OnceLock<ContentPack>>,
 }
 
+/// Parse the (mirrored) pack header stored at the end of the reader.
+/// Return the header and the offset at which the pack starts.
+fn parse_tail(reader: &Reader) -> Result<(PackHeader, Offset)> {
+    let mut buffer_reader = [0u8; PackHeader::BLOCK_SIZE];
+    let tail_size = Size::from(PackHeader::BLOCK_SIZE);
+    reader
+        .create_stream((reader.size() - tail_size).into(), tail_size, false)?
+        .read_exact(&mut buffer_reader)?;
+    buffer_reader.reverse();
+    let end_reader: Reader = buffer_reader.into();
+    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+    if pack_header.file_size > reader.size() {
+        return Err(format_error!("Pack is bigger than the file"));
+    }
+    let origin = reader.size() - pack_header.file_size;
+    Ok((pack_header, origin.into()))
+}
+
 /// Open the reader as a container pack.
 /// Blindly opening from a Reader is a bit complex as:
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
+    if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {
+        return Err(ErrorKind::NotAJbk.into());
+    }
     // Check at beginning
-    // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
-            //Check at end
-            let mut buffer_reader = [0u8; 64];
-            reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
-                .read_exact(&mut buffer_reader)?;
-            buffer_reader.reverse();
-            let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-            let origin = reader.size() - pack_header.file_size;
-            (pack_header, origin.into())
-        }
+        Err(_) => match parse_tail(&reader) {
+            Ok(found) => found,
+            Err(tail_error) => {
+                // Parse without Check as we want a nice message to the user if version has changed.
+                reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+                return Err(tail_error);
+            }
+        },
     };
 
     match pack_header.magic {
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 0f003f0..f9aeabc 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -10,6 +10,7 @@ mod locator;
 mod manifest_pack;
 mod missing;
 
+pub(crate) use self::jubako::open_as_container_pack;
 pub use self::jubako::Container;
 pub use container_pack::ContainerPack;
 pub use content_pack::ContentPack;
diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..a26863b 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -28,11 +28,7 @@ pub fn concat(infiles: &[impl AsRef<Path>], outfile: impl AsRef<Utf8Path>) -> jb
 
 pub fn open_pack(path: impl AsRef<Path>) -> jbk::Result<ContainerPack> {
     let reader = Reader::from(FileSource::open(path.as_ref())?);
-    let pack_header = reader.parse_block_at::<jbk::common::PackHeader>(Offset::zero())?;
-    Ok(match pack_header.magic {
-        jbk::common::PackKind::Container => ContainerPack::new(reader)?,
-        _ => ContainerPack::new_fake(reader, pack_header.uuid),
-    })
+    jbk::reader::open_as_container_pack(reader)
 }
 
 pub fn set_location(
-- 
2.43.0


From c48f87adb64e267c2f7330a85dc130054bac4a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 11/18] fix: rewrite locations of the actual pack infos and
 refuse too long ones

---
 src/bin/jbk/locate.rs   |  5 +++--
 src/common/pack_info.rs |  3 +++
 src/tools.rs            | 13 +++++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bin/jbk/locate.rs b/src/bin/jbk/locate.rs
index 5a4907a..a9d2c5c 100644
--- a/src/bin/jbk/locate.rs
+++ b/src/bin/jbk/locate.rs
@@ -29,8 +29,9 @@ pub fn run(options: Options) -> jbk::Result<()> {
         },
     };
     if let Some(location) = &options.new_location {
-        if location.len() > 217 {
-            eprintln!("{location} is too long. Only 217 bytes allowed");
+        let max_len = jbk::reader::PackInfo::MAX_LOCATION_LEN;
+        if location.len() > max_len {
+            eprintln!("{location} is too long. Only {max_len} bytes allowed");
             return Ok(());
         }
 
diff --git a/src/common/pack_info.rs b/src/common/pack_info.rs
index fbaa0de..52cfc6f 100644
--- a/src/common/pack_info.rs
+++ b/src/common/pack_info.rs
@@ -15,6 +15,9 @@ pub struct PackInfo {
 }
 
 impl PackInfo {
+    /// The maximum size (in bytes) of a pack location.
+    pub const MAX_LOCATION_LEN: usize = 213;
+
     pub(crate) fn new(
         pack_data: crate::creator::PackData,
         pack_group: u8,
diff --git a/src/tools.rs b/src/tools.rs
index a26863b..442384d 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,6 +1,6 @@
 use crate as jbk;
 use crate::common::{PackHeader, PackKind};
-use crate::reader::{ManifestPackHeader, PackOffsetsIter};
+use crate::reader::{ManifestPackHeader, PackInfo, PackOffsetsIter};
 use camino::Utf8Path;
 use jbk::bases::*;
 use jbk::reader::ContainerPack;
@@ -36,6 +36,12 @@ pub fn set_location(
     uuid: Uuid,
     new_location: SmallString,
 ) -> jbk::Result<Option<(PackKind, SmallString)>> {
+    if new_location.len() > PackInfo::MAX_LOCATION_LEN {
+        return Err(format_error!(format!(
+            "{new_location} is too long. Only {} bytes allowed",
+            PackInfo::MAX_LOCATION_LEN
+        )));
+    }
     let container = Arc::new(jbk::tools::open_pack(&filename)?);
 
     let manifest_pack_reader = container.get_manifest_pack_reader()?;
@@ -48,11 +54,10 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
-        let mut pack_info =
-            manifest_pack_reader.parse_block_at::<jbk::reader::PackInfo>(pack_offset)?;
+        let mut pack_info = manifest_pack_reader.parse_block_at::<PackInfo>(pack_offset)?;
         if pack_info.uuid != uuid {
             continue;
         }
-- 
2.43.0


From 31f00d873cdc672784484b51267090ba47a9ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 12/18] fix: find packs by identity in the file at their
 recorded location

---
 src/reader/locator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..5d3a210 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,13 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The file may be the pack itself or a container in which the pack is stored.
+            // If the pack we are looking for is not in the file, it is missing.
+            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
+            Ok(container.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 70116130dde78a6433db0cf473de0c970291f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 13/18] fix: report out of bounds accesses as errors instead of
 panicking or faulting

---
 src/bases/block.rs        |  9 ++++++-
 src/bases/io/buffer.rs    | 15 ++++++-----
 src/bases/io/file.rs      |  6 +++++
 src/bases/io/mod.rs       | 16 ++++++++++++
 src/bases/reader.rs       |  6 ++---
 src/bases/types/range.rs  | 53 +++++++++++++++++++++++++--------------
 src/reader/byte_region.rs | 20 ++++++++++-----
 src/reader/byte_slice.rs  | 20 ++++++++++-----
 src/reader/jubako.rs      | 11 ++++----
 9 files changed, 109 insertions(+), 47 deletions(-)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 77e8d2a..06d30ed 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -18,7 +18,14 @@ pub(crate) const CRC: crc::Crc<u32> = crc::Crc::<u32>::new(&CUSTOM_ALG);
 
 /// This check a "full" slice (containing data AND crc)
 pub(crate) fn assert_slice_crc(buf: &[u8]) -> Result<()> {
-    let data_size = buf.len() - 4;
+    if buf.len() < BlockCheck::Crc32.size() {
+        return Err(CorruptedFile {
+            buf: buf.to_vec(),
+            found_checksum: [0; 4],
+        }
+        .into());
+    }
+    let data_size = buf.len() - BlockCheck::Crc32.size();
     let slice = &buf[..data_size];
     let mut digest = CRC.digest();
     digest.update(slice);
diff --git a/src/bases/io/buffer.rs b/src/bases/io/buffer.rs
index 5d0c16b..f661621 100644
--- a/src/bases/io/buffer.rs
+++ b/src/bases/io/buffer.rs
@@ -1,3 +1,4 @@
+use super::check_region;
 use crate::bases::*;
 use std::sync::Arc;
 use std::{borrow::Cow, io::Read};
@@ -10,27 +11,29 @@ where
         self.as_ref().len().into()
     }
     fn read(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<usize> {
-        let o = offset.force_into_usize();
+        let our_size = self.as_ref().len();
+        let o = std::cmp::min(offset.into_u64(), our_size as u64) as usize;
         let mut slice = &self.as_ref()[o..];
         Read::read(&mut slice, buf)
     }
 
     fn read_exact(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<()> {
-        let o = offset.force_into_usize();
-        let e = o + buf.len();
         let our_size = self.as_ref().len();
-        if e > our_size {
+        let end = offset.into_u64().checked_add(buf.len() as u64);
+        if !end.is_some_and(|end| end <= our_size as u64) {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
-                format!("Out of slice. {e} ({o}) > {our_size}"),
+                format!("Out of slice. {} ({offset}) > {our_size}", buf.len()),
             ));
         }
+        let o = offset.force_into_usize();
+        let e = o + buf.len();
         buf.copy_from_slice(&self.as_ref()[o..e]);
         Ok(())
     }
 
     fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> Result<Cow<[u8]>> {
-        debug_assert!(region.end().force_into_usize() <= self.as_ref().len());
+        check_region(region.into(), &block_check, self.as_ref().len().into())?;
         if let BlockCheck::Crc32 = block_check {
             let full_slice = &self.as_ref()[region.begin().force_into_usize()
                 ..region.end().force_into_usize() + BlockCheck::Crc32.size()];
diff --git a/src/bases/io/file.rs b/src/bases/io/file.rs
index 3a560f9..507d3c6 100644
--- a/src/bases/io/file.rs
+++ b/src/bases/io/file.rs
@@ -1,3 +1,4 @@
+use super::check_region;
 use crate::bases::*;
 use log::warn;
 #[cfg(unix)]
@@ -80,6 +81,7 @@ impl Source for FileSource {
     }
 
     fn get_slice(&self, region: ARegion, block_check: BlockCheck) -> Result<Cow<[u8]>> {
+        check_region(region.into(), &block_check, self.size())?;
         let mut buf = vec![0; region.size().into_usize() + block_check.size()];
         self.read_exact(region.begin(), &mut buf)?;
         if let BlockCheck::Crc32 = block_check {
@@ -95,6 +97,7 @@ impl Source for FileSource {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        check_region(region, &block_check, self.size())?;
         if !move_to_memory(region) || !in_memory {
             if let BlockCheck::Crc32 = block_check {
                 warn!("Check of not memory block is not implemented");
@@ -111,6 +114,9 @@ impl Source for FileSource {
             f.by_ref()
                 .take(full_size.into_u64())
                 .read_to_end(&mut buf)?;
+            if buf.len() != full_size.into_usize() {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+            }
             if let BlockCheck::Crc32 = block_check {
                 assert_slice_crc(&buf)?;
             }
diff --git a/src/bases/io/mod.rs b/src/bases/io/mod.rs
index ce53990..c7577b4 100644
--- a/src/bases/io/mod.rs
+++ b/src/bases/io/mod.rs
@@ -28,6 +28,22 @@ pub(crate) trait Source: Sync + Send {
     fn display(&self) -> String;
 }
 
+/// Check that the region (and its check, if any) is included in a source of size `size`.
+fn check_region(region: Region, block_check: &BlockCheck, size: Size) -> Result<()> {
+    match region
+        .end()
+        .into_u64()
+        .checked_add(block_check.size() as u64)
+    {
+        Some(end) if end <= size.into_u64() => Ok(()),
+        _ => Err(format_error!(format!(
+            "Out of source. Region [{}, {}] is not in a source of {size}",
+            region.begin(),
+            region.end()
+        ))),
+    }
+}
+
 impl fmt::Debug for dyn Source {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.write_fmt(format_args!("Source{{Size:{}}}", self.size()))
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..23b1b32 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,7 +98,7 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        let region = self.region.cut_rel(offset, size);
+        let region = self.region.try_cut_rel(offset, size)?;
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
 
@@ -161,7 +161,7 @@ impl CheckReader {
     }
 
     pub(crate) fn create_parser(&self, offset: Offset, size: ASize) -> Result<impl Parser + '_> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         let slice = self.source.get_slice(region, BlockCheck::None)?;
         Ok(SliceParser::new(slice, self.region.begin() + offset))
     }
@@ -176,7 +176,7 @@ impl CheckReader {
         T::parse(&mut parser)
     }
     pub fn get_slice(&self, offset: Offset, size: ASize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, size);
+        let region = self.region.try_cut_rel_asize(offset, size)?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index d8b6cb2..56ffe22 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -1,4 +1,4 @@
-use super::{ASize, EntryIdx, Offset, Size};
+use super::{ASize, EntryIdx, Offset, Result, Size};
 use std::ops::{Add, Sub};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone)]
@@ -49,27 +49,42 @@ pub(crate) type Region = Range<Offset>;
 impl Region {
     /// Relative cut.
     /// offset and end are relative to the current region
+    ///
+    /// Return an error if the cut is not included in the current region.
+    #[inline]
+    pub(crate) fn try_cut_rel(&self, offset: Offset, size: Size) -> Result<Self> {
+        let begin = self.begin().into_u64().checked_add(offset.into_u64());
+        let end = begin.and_then(|begin| begin.checked_add(size.into_u64()));
+        match (begin, end) {
+            (Some(begin), Some(end)) if end <= self.end().into_u64() => {
+                Ok(Self::new(begin.into(), end.into()))
+            }
+            _ => Err(format_error!(format!(
+                "Out of region. Cannot cut {size} at {offset} in [{}, {}]",
+                self.begin(),
+                self.end()
+            ))),
+        }
+    }
+
+    /// Relative cut.
+    /// offset and end are relative to the current region
+    ///
+    /// # Panics
+    ///
+    /// Panics if the cut is not included in the current region.
     #[inline]
     pub fn cut_rel(&self, offset: Offset, size: Size) -> Self {
-        let begin = self.begin() + offset;
-        let end = begin + size;
-        debug_assert!(
-            end <= self.end(),
-            "end({end:?}) <= self.end({:?})",
-            self.end()
-        );
-        Self::new(begin, end)
+        match self.try_cut_rel(offset, size) {
+            Ok(region) => region,
+            Err(e) => panic!("{e}"),
+        }
     }
+
     #[inline]
-    pub(crate) fn cut_rel_asize(&self, offset: Offset, size: ASize) -> ARegion {
-        let begin = self.begin() + offset;
-        let end = begin + Size::from(size);
-        debug_assert!(
-            end <= self.end(),
-            "end({end:?}) <= self.end({:?})",
-            self.end()
-        );
-        ARegion::new(begin, end)
+    pub(crate) fn try_cut_rel_asize(&self, offset: Offset, size: ASize) -> Result<ARegion> {
+        let region = self.try_cut_rel(offset, Size::from(size))?;
+        Ok(ARegion::new(region.begin(), region.end()))
     }
 }
 
@@ -105,7 +120,7 @@ impl From<ARegion> for Region {
 
 impl TryFrom<Region> for ARegion {
     type Error = std::num::TryFromIntError;
-    fn try_from(value: Region) -> Result<Self, Self::Error> {
+    fn try_from(value: Region) -> std::result::Result<Self, Self::Error> {
         let _size: ASize = value.size().try_into()?;
         Ok(Self(value))
     }
diff --git a/src/reader/byte_region.rs b/src/reader/byte_region.rs
index c225ba3..9f4234c 100644
--- a/src/reader/byte_region.rs
+++ b/src/reader/byte_region.rs
@@ -52,7 +52,7 @@ impl ByteRegion {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteRegion actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -69,9 +69,13 @@ impl From<ByteSlice<'_>> for ByteRegion {
 impl RandomParser for ByteRegion {
     type Parser<'s> = SliceParser<'s>;
     fn create_parser(&self, offset: Offset) -> Result<Self::Parser<'_>> {
-        let size = self.region.size() - offset.into();
-        let size = std::cmp::min(0xFFFF_u64, size.into_u64()) as usize;
-        let region = self.region.cut_rel_asize(offset, size.into());
+        let size = self
+            .region
+            .size()
+            .into_u64()
+            .saturating_sub(offset.into_u64());
+        let size = std::cmp::min(0xFFFF_u64, size) as usize;
+        let region = self.region.try_cut_rel_asize(offset, size.into())?;
         Ok(SliceParser::new(
             self.source.get_slice(region, BlockCheck::None)?,
             self.region.begin() + offset,
@@ -83,12 +87,16 @@ impl RandomParser for ByteRegion {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
     fn read_data(&self, offset: Offset, buf: &mut [u8]) -> IoResult<()> {
-        self.source.read_exact(self.region.begin() + offset, buf)
+        let region = self
+            .region
+            .try_cut_rel(offset, buf.len().into())
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::UnexpectedEof, e))?;
+        self.source.read_exact(region.begin(), buf)
     }
 }
 
diff --git a/src/reader/byte_slice.rs b/src/reader/byte_slice.rs
index 01c59d5..318b9b7 100644
--- a/src/reader/byte_slice.rs
+++ b/src/reader/byte_slice.rs
@@ -47,7 +47,7 @@ impl<'s> ByteSlice<'s> {
     /// Most of the time, it will return a `Cow::Borrowed` as ByteSlice actually reference data
     /// stored in memory but it may potentially be a `Cow::Owned` if it reference a file.
     pub fn get_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::new(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::new(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 }
@@ -58,9 +58,13 @@ impl<'s> RandomParser for ByteSlice<'s> {
     where
         's: 'p;
     fn create_parser(&self, offset: Offset) -> Result<Self::Parser<'_>> {
-        let size = self.region.size() - offset.into();
-        let size = std::cmp::min(0xFFFF_u64, size.into_u64()) as usize;
-        let region = self.region.cut_rel_asize(offset, size.into());
+        let size = self
+            .region
+            .size()
+            .into_u64()
+            .saturating_sub(offset.into_u64());
+        let size = std::cmp::min(0xFFFF_u64, size) as usize;
+        let region = self.region.try_cut_rel_asize(offset, size.into())?;
         Ok(SliceParser::new(
             self.source.get_slice(region, BlockCheck::None)?,
             self.region.begin() + offset,
@@ -72,11 +76,15 @@ impl<'s> RandomParser for ByteSlice<'s> {
     }
 
     fn read_slice(&self, offset: Offset, size: usize) -> Result<Cow<[u8]>> {
-        let region = self.region.cut_rel_asize(offset, ASize::from(size));
+        let region = self.region.try_cut_rel_asize(offset, ASize::from(size))?;
         self.source.get_slice(region, BlockCheck::None)
     }
 
     fn read_data(&self, offset: Offset, buf: &mut [u8]) -> IoResult<()> {
-        self.source.read_exact(self.region.begin() + offset, buf)
+        let region = self
+            .region
+            .try_cut_rel(offset, buf.len().into())
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::UnexpectedEof, e))?;
+        self.source.read_exact(region.begin(), buf)
     }
 }
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index d6d20a8..463fee5 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -117,15 +117,14 @@ impl Container {
         let locator = Arc::new(ChainedLocator::new(locators));
 
         let pack_info = manifest_pack.get_directory_pack_info();
-        let directory_pack = Arc::new(DirectoryPack::new(
-            locator
-                .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
-        )?);
+        let directory_pack_reader = locator
+            .locate(pack_info.uuid, &pack_info.pack_location)?
+            .ok_or_else(|| -> Error { format_error!("Impossible to locate the directory pack") })?;
+        let directory_pack = Arc::new(DirectoryPack::new(directory_pack_reader)?);
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 270c66abac7e351e1593147f3663c5461d2cfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 14/18] fix: report decompression failures to the readers

---
 src/bases/io/compression.rs | 90 ++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..adeb778 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -1,3 +1,4 @@
+use super::check_region;
 use crate::bases::*;
 use std::borrow::Cow;
 use std::io::Read;
@@ -27,11 +28,20 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+/// How far we are in the decompression.
+#[derive(Default)]
+struct Progress {
+    /// The number of bytes decoded (and so, readable).
+    decoded: usize,
+    /// Why we will never have more than `decoded` bytes.
+    error: Option<(std::io::ErrorKind, String)>,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
@@ -40,27 +50,35 @@ struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
 unsafe impl Sync for SyncVecRd {}
 
 impl SyncVecRd {
+    /// Wait until at least `end` bytes are decoded.
+    /// Return an error if the decompression failed before.
     #[inline]
-    pub fn wait_while<F>(&self, function: F) -> usize
-    where
-        F: Fn(&mut usize) -> bool,
-    {
+    pub fn wait_for(&self, end: usize) -> std::io::Result<()> {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        let progress = cvar
+            .wait_while(lock.lock().unwrap(), |p| {
+                p.decoded < end && p.error.is_none()
+            })
+            .unwrap();
+        match &progress.error {
+            Some((kind, msg)) if progress.decoded < end => {
+                Err(std::io::Error::new(*kind, msg.as_str()))
+            }
+            _ => Ok(()),
+        }
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().decoded
     }
 
     #[inline]
@@ -77,7 +95,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(Progress::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -103,7 +121,7 @@ pub(crate) struct SeekableDecoder {
 
 fn decode_to_end<T: Read + Send>(
     mut decoder: T,
-    mut buffer: SyncVecWr,
+    buffer: &mut SyncVecWr,
     chunk_size: usize,
 ) -> std::io::Result<()> {
     let total_size = buffer.total_size;
@@ -113,13 +131,20 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
             .read_to_end(&mut buffer.data)?;
+        if read == 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "Compressed data is too short",
+            ));
+        }
+        uncompressed += read;
         let (lock, cvar) = &*buffer.decoded;
-        let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
+        let mut progress = lock.lock().unwrap();
+        progress.decoded = uncompressed;
         cvar.notify_all();
     }
     //println!("Decompress done");
@@ -128,7 +153,7 @@ fn decode_to_end<T: Read + Send>(
 
 impl SeekableDecoder {
     pub fn new<T: Read + Send + 'static>(decoder: T, size: ASize) -> Self {
-        let (write_hand, read_hand) = create_sync_vec(size.into_usize());
+        let (mut write_hand, read_hand) = create_sync_vec(size.into_usize());
 
         DECOMPRESSION_POOL
             .get_or_init(|| {
@@ -139,14 +164,19 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                if let Err(e) = decode_to_end(decoder, &mut write_hand, 4 * 1024) {
+                    // Don't let the readers wait for bytes which will never come.
+                    let (lock, cvar) = &*write_hand.decoded;
+                    lock.lock().unwrap().error = Some((e.kind(), e.to_string()));
+                    cvar.notify_all();
+                }
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        self.buffer.wait_for(end)
     }
 
     #[inline]
@@ -160,24 +190,24 @@ impl Source for SeekableDecoder {
         self.buffer.total_size().into()
     }
     fn read(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<usize> {
-        let end = std::cmp::min(
-            offset.force_into_usize() + buf.len(),
-            self.buffer.total_size(),
-        );
-        self.decode_to(end);
-        let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
+        let total_size = self.buffer.total_size();
+        let offset = std::cmp::min(offset.into_u64(), total_size as u64) as usize;
+        let end = std::cmp::min(offset.saturating_add(buf.len()), total_size);
+        self.decode_to(end)?;
+        let mut slice = &self.decoded_slice()[offset..];
         Read::read(&mut slice, buf)
     }
     fn read_exact(&self, offset: Offset, buf: &mut [u8]) -> std::io::Result<()> {
-        let o = offset.force_into_usize();
-        let end = o + buf.len();
-        if end > self.buffer.total_size() {
+        let end = offset.into_u64().checked_add(buf.len() as u64);
+        if !end.is_some_and(|end| end <= self.buffer.total_size() as u64) {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        let o = offset.force_into_usize();
+        let end = o + buf.len();
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +225,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
@@ -208,10 +238,10 @@ impl Source for SeekableDecoder {
         block_check: BlockCheck,
         _in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
-        debug_assert!(region.end().is_valid(self.size()));
         if let BlockCheck::Crc32 = block_check {
             unreachable!()
         }
+        check_region(region, &block_check, self.size())?;
         Ok((self, region))
     }
 
-- 
2.43.0


From d55a28755381a5f0c1313a6fc6fb01be4d9f4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 15/18] fix: report malformed metadata as errors instead of
 panicking

---
 src/bases/mod.rs                         | 12 +++++-----
 src/bases/prop_type.rs                   |  1 -
 src/common/headers/pack.rs               | 15 +++++++-----
 src/common/pack_info.rs                  |  5 +++-
 src/reader/container_pack.rs             |  4 +++-
 src/reader/content_pack/cluster.rs       | 20 +++++++++++++---
 src/reader/content_pack/mod.rs           |  2 +-
 src/reader/directory_pack/entry_store.rs | 15 +++++++++---
 src/reader/directory_pack/mod.rs         |  2 +-
 src/reader/directory_pack/raw_layout.rs  | 10 +++++++-
 src/reader/directory_pack/value_store.rs | 29 ++++++++++++++++++------
 src/reader/manifest_pack.rs              | 10 ++++++--
 12 files changed, 92 insertions(+), 33 deletions(-)

diff --git a/src/bases/mod.rs b/src/bases/mod.rs
index 27c530e..a9fa2d7 100644
--- a/src/bases/mod.rs
+++ b/src/bases/mod.rs
@@ -64,12 +64,12 @@ where
 {
     type OutputType = Result<OutType::Output>;
     fn index(&self, idx: Idx<IdxType>) -> Result<OutType::Output> {
-        debug_assert!(
-            idx.is_valid(self.length),
-            "idx = {:?}, length = {:?}",
-            idx,
-            self.length
-        );
+        if !idx.is_valid(self.length) {
+            return Err(format_error!(format!(
+                "Index {idx:?} is not valid (length is {:?})",
+                self.length
+            )));
+        }
         let offset = u64::from(idx.into_base()) * self.elem_size.into_u64();
         self.reader
             .parse_in::<OutType>(Offset::from(offset), self.elem_size)
diff --git a/src/bases/prop_type.rs b/src/bases/prop_type.rs
index e210e62..4872885 100644
--- a/src/bases/prop_type.rs
+++ b/src/bases/prop_type.rs
@@ -21,7 +21,6 @@ impl TryFrom<u8> for PropType {
             0b0001_0000 => Ok(Self::ContentAddress),
             0b0010_0000 => Ok(Self::UnsignedInt),
             0b0011_0000 => Ok(Self::SignedInt),
-            0b0100_0000 => todo!(), // Redirection and SubRange
             0b0101_0000 => Ok(Self::Array),
             0b1000_0000 => Ok(Self::VariantId),
             0b1010_0000 => Ok(Self::DeportedUnsignedInt),
diff --git a/src/common/headers/pack.rs b/src/common/headers/pack.rs
index 24094f1..0ca3a00 100644
--- a/src/common/headers/pack.rs
+++ b/src/common/headers/pack.rs
@@ -45,12 +45,15 @@ impl PackHeader {
         }
     }
 
-    pub fn check_info_size(&self) -> ASize {
-        let check_info_size = self.file_size.into_u64()
-            - Self::BLOCK_SIZE as u64
-            - self.check_info_pos.into_u64()
-            - BlockCheck::Crc32.size() as u64;
-        ASize::new(check_info_size as usize)
+    pub fn check_info_size(&self) -> Result<ASize> {
+        let check_info_end = self
+            .check_info_pos
+            .into_u64()
+            .saturating_add((Self::BLOCK_SIZE + BlockCheck::Crc32.size()) as u64);
+        match self.file_size.into_u64().checked_sub(check_info_end) {
+            Some(check_info_size) => Ok(ASize::new(check_info_size as usize)),
+            None => Err(format_error!("Pack is too small to contain its check info")),
+        }
     }
 }
 
diff --git a/src/common/pack_info.rs b/src/common/pack_info.rs
index 52cfc6f..b4391f1 100644
--- a/src/common/pack_info.rs
+++ b/src/common/pack_info.rs
@@ -77,7 +77,10 @@ impl Parsable for PackInfo {
         let pack_group = parser.read_u8()?;
         let free_data_id = ValueIdx::from(parser.read_u16()? as u64);
         let pack_location = PString::parse(parser)?;
-        parser.skip(213 - pack_location.len())?;
+        match Self::MAX_LOCATION_LEN.checked_sub(pack_location.len()) {
+            Some(padding) => parser.skip(padding)?,
+            None => return Err(format_error!("Pack location is too long", parser)),
+        }
         Ok(Self {
             uuid,
             pack_size,
diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index b440b36..3e2d89d 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -76,7 +76,9 @@ impl ContainerPack {
                 PackKind::Manifest => ManifestPack::new(reader.clone())?.check()?,
                 PackKind::Directory => DirectoryPack::new(reader.clone())?.check()?,
                 PackKind::Content => ContentPack::new(reader.clone())?.check()?,
-                PackKind::Container => todo!(),
+                PackKind::Container => {
+                    return Err(format_error!("A container pack cannot contain a container"))
+                }
             };
             if !ok {
                 return Ok(false);
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index b96ff26..f0103d2 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -109,9 +109,13 @@ impl Cluster {
     }
 
     pub fn get_bytes(&self, index: BlobIdx) -> Result<ByteRegion> {
+        let idx = index.into_usize();
+        if idx + 1 >= self.blob_offsets.len() {
+            return Err(format_error!(format!("Blob index ({index}) is not valid")));
+        }
         self.build_plain_reader()?;
-        let offset = self.blob_offsets[index.into_usize()];
-        let end_offset = self.blob_offsets[index.into_usize() + 1];
+        let offset = self.blob_offsets[idx];
+        let end_offset = self.blob_offsets[idx + 1];
         let size = end_offset - offset;
         if let ClusterReader::Plain(r) = &*self.reader.read().unwrap() {
             Ok(r.get_byte_slice(offset, size).into())
@@ -137,6 +141,9 @@ impl DataBlockParsable for Cluster {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (cluster_builder, raw_data_size) = intermediate;
+        if raw_data_size > Size::from(header_offset) {
+            return Err(format_error!("Cluster data starts before the pack"));
+        }
         let reader = reader.cut(header_offset - raw_data_size, raw_data_size, false)?;
         let reader = if cluster_builder.compression == CompressionType::None {
             assert_eq!(cluster_builder.data_size, raw_data_size);
@@ -167,6 +174,7 @@ impl Parsable for ClusterBuilder {
         let mut blob_offsets: Vec<Offset> = Vec::with_capacity(blob_count + 1);
         let uninit = blob_offsets.spare_capacity_mut();
         let mut first = true;
+        let mut previous = Offset::zero();
         for elem in &mut uninit[0..blob_count] {
             let value: Offset = if first {
                 first = false;
@@ -174,7 +182,13 @@ impl Parsable for ClusterBuilder {
             } else {
                 parser.read_usized(header.offset_size)?.into()
             };
-            assert!(value.is_valid(data_size));
+            if value < previous || !value.is_valid(data_size) {
+                return Err(format_error!(
+                    &format!("Invalid blob offset ({value})"),
+                    parser
+                ));
+            }
+            previous = value;
             elem.write(value);
         }
         unsafe { blob_offsets.set_len(blob_count) }
diff --git a/src/reader/content_pack/mod.rs b/src/reader/content_pack/mod.rs
index 6492f34..5dde596 100644
--- a/src/reader/content_pack/mod.rs
+++ b/src/reader/content_pack/mod.rs
@@ -184,7 +184,7 @@ impl Pack for ContentPack {
         if self.check_info.get().is_none() {
             let _ = self.check_info.set(self.reader.parse_block_in::<CheckInfo>(
                 self.pack_header.check_info_pos,
-                self.pack_header.check_info_size(),
+                self.pack_header.check_info_size()?,
             )?);
         }
         let check_info = self.check_info.get().unwrap();
diff --git a/src/reader/directory_pack/entry_store.rs b/src/reader/directory_pack/entry_store.rs
index 23d048c..7bbc08e 100644
--- a/src/reader/directory_pack/entry_store.rs
+++ b/src/reader/directory_pack/entry_store.rs
@@ -57,7 +57,10 @@ impl Parsable for EntryStoreBuilder {
                 let layout = Layout::parse(parser)?;
                 Ok(layout)
             }
-            _ => todo!(),
+            _ => Err(format_error!(
+                &format!("Unsupported store kind ({kind:?})"),
+                parser
+            )),
         }
     }
 }
@@ -69,15 +72,21 @@ impl DataBlockParsable for EntryStore {
     type Output = Self;
 
     fn finalize(layout: Layout, header_offset: Offset, reader: &Reader) -> Result<Self> {
+        let data_offset = |size: Size| -> Result<Offset> {
+            match header_offset.into_u64().checked_sub(size.into_u64()) {
+                Some(offset) => Ok(offset.into()),
+                None => Err(format_error!("Entry store starts before the pack")),
+            }
+        };
         let entry_reader = if layout.is_entry_checked {
             let data_size =
                 layout.entry_count * (layout.entry_size + BlockCheck::Crc32.size()).into();
-            reader.cut(header_offset - data_size, data_size, false)?
+            reader.cut(data_offset(data_size)?, data_size, false)?
         } else {
             let data_size = layout.entry_count * layout.entry_size.into();
             reader
                 .cut_check(
-                    header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
+                    data_offset(data_size + BlockCheck::Crc32.size() as u64)?,
                     data_size,
                     BlockCheck::Crc32,
                 )?
diff --git a/src/reader/directory_pack/mod.rs b/src/reader/directory_pack/mod.rs
index 0df3881..6e01341 100644
--- a/src/reader/directory_pack/mod.rs
+++ b/src/reader/directory_pack/mod.rs
@@ -197,7 +197,7 @@ impl Pack for DirectoryPack {
         if self.check_info.read().unwrap().is_none() {
             let check_info = self.reader.parse_block_in::<CheckInfo>(
                 self.pack_header.check_info_pos,
-                self.pack_header.check_info_size(),
+                self.pack_header.check_info_size()?,
             )?;
             let mut s_check_info = self.check_info.write().unwrap();
             *s_check_info = Some(check_info);
diff --git a/src/reader/directory_pack/raw_layout.rs b/src/reader/directory_pack/raw_layout.rs
index 22b6688..a5a2821 100644
--- a/src/reader/directory_pack/raw_layout.rs
+++ b/src/reader/directory_pack/raw_layout.rs
@@ -182,7 +182,15 @@ impl Parsable for RawProperty {
                     (
                         0,
                         {
-                            let size = parser.read_usized(array_len_size.unwrap())?;
+                            let size = match array_len_size {
+                                Some(array_len_size) => parser.read_usized(array_len_size)?,
+                                None => {
+                                    return Err(format_error!(
+                                        "Default array must have a size",
+                                        parser
+                                    ))
+                                }
+                            };
                             let fixed_data = BaseArray::parse(fixed_array_len, parser)?;
                             let key_id =
                                 if key_size != 0 {
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index 325575d..fadf33f 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -118,9 +118,17 @@ impl Parsable for ValueStoreBuilder {
 
                 // [FIXME] A lot of value means a lot of allocation.
                 // A wrong value here (or a carefully choosen one) may break our program.
+                // A tail is never bigger than 0xFFFF bytes.
+                if value_count > 0xFFFF {
+                    return Err(format_error!(
+                        &format!("Invalid value count ({value_count})"),
+                        parser
+                    ));
+                }
                 let mut value_offsets: Vec<Offset> = Vec::with_capacity(value_count + 1);
                 let uninit = value_offsets.spare_capacity_mut();
                 let mut first = true;
+                let mut previous = Offset::zero();
                 for elem in &mut uninit[0..value_count] {
                     let value: Offset = if first {
                         first = false;
@@ -128,7 +136,13 @@ impl Parsable for ValueStoreBuilder {
                     } else {
                         parser.read_usized(offset_size)?.into()
                     };
-                    assert!(value.is_valid(data_size));
+                    if value < previous || !value.is_valid(data_size) {
+                        return Err(format_error!(
+                            &format!("Invalid value offset ({value})"),
+                            parser
+                        ));
+                    }
+                    previous = value;
                     elem.write(value);
                 }
                 unsafe { value_offsets.set_len(value_count) }
@@ -151,11 +165,12 @@ impl DataBlockParsable for ValueStore {
         reader: &Reader,
     ) -> Result<Self::Output> {
         let (store_builder, data_size) = intermediate;
-        let reader = reader.cut_check(
-            header_offset - data_size - ASize::from(BlockCheck::Crc32.size()),
-            data_size,
-            BlockCheck::Crc32,
-        )?;
+        let data_offset = header_offset
+            .into_u64()
+            .checked_sub(BlockCheck::Crc32.size() as u64)
+            .and_then(|end| end.checked_sub(data_size.into_u64()))
+            .ok_or_else(|| -> Error { format_error!("Value store starts before the pack") })?;
+        let reader = reader.cut_check(data_offset.into(), data_size, BlockCheck::Crc32)?;
         // We want to be sure that we load all the ValueStore data in memory first.
         Ok(match store_builder {
             ValueStoreBuilder::Plain => Self::Plain(PlainValueStore { reader }),
@@ -182,7 +197,7 @@ impl PlainValueStore {
                 unreachable!("Reader must be from memory")
             }
         } else {
-            panic!("Cannot use unsized with PlainValueStore");
+            Err(format_error!("Cannot use unsized with PlainValueStore"))
         }
     }
 }
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 6f7737e..b75fb59 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -57,6 +57,11 @@ impl ManifestPack {
 
         let header =
             reader.parse_block_at::<ManifestPackHeader>(Offset::from(PackHeader::BLOCK_SIZE))?;
+        if header.pack_count * Size::from(PackInfo::BLOCK_SIZE)
+            > Size::from(pack_header.check_info_pos)
+        {
+            return Err(format_error!("Pack infos start before the manifest"));
+        }
         let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
         let mut directory_pack_info = None;
         let mut pack_infos: Vec<PackInfo> = Vec::with_capacity(header.pack_count.into_usize());
@@ -81,7 +86,8 @@ impl ManifestPack {
             pack_header,
             header,
             reader,
-            directory_pack_info: directory_pack_info.unwrap(),
+            directory_pack_info: directory_pack_info
+                .ok_or_else(|| -> Error { format_error!("No directory pack in the manifest") })?,
             pack_infos,
             check_info: OnceLock::new(),
             value_store,
@@ -112,7 +118,7 @@ impl ManifestPack {
     fn _get_check_info(&self) -> Result<CheckInfo> {
         self.reader.parse_block_in::<CheckInfo>(
             self.pack_header.check_info_pos,
-            self.pack_header.check_info_size(),
+            self.pack_header.check_info_size()?,
         )
     }
 
-- 
2.43.0


From dbffbad2603b6009a356255b1152e4c7dac3a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 16/18] fix: the check info of a pack is read with the size the
 manifest records

---
 src/reader/manifest_pack.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index b75fb59..79aef9c 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -131,9 +131,16 @@ impl ManifestPack {
                 Some(p) => p,
             }
         };
+        // The recorded size is the size of the whole block, including its checksum.
+        let check_info_size = pack_info
+            .check_info_pos
+            .size
+            .into_usize()
+            .checked_sub(BlockCheck::Crc32.size())
+            .ok_or_else(|| -> Error { format_error!("Check info of the pack is too small") })?;
         Ok(Some(self.reader.parse_block_in::<CheckInfo>(
             pack_info.check_info_pos.offset,
-            pack_info.check_info_pos.size,
+            ASize::new(check_info_size),
         )?))
     }
 
-- 
2.43.0


From f143c0d6a3a6d2bab48789817b544de03a4336c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 17/18] verification hook: include of contract files, guarded
 by cfg(jubako_verif)

---
 src/bases/block.rs                              |  3 +++
 src/bases/cache.rs                              |  3 +++
 src/bases/io/buffer.rs                          |  3 +++
 src/bases/io/compression.rs                     |  3 +++
 src/bases/io/file.rs                            |  3 +++
 src/bases/io/mod.rs                             |  3 +++
 src/bases/mod.rs                                |  3 +++
 src/bases/parsing.rs                            |  3 +++
 src/bases/reader.rs                             |  3 +++
 src/bases/types/base_array.rs                   |  3 +++
 src/bases/types/delayed.rs                      |  3 +++
 src/bases/types/pstring.rs                      |  3 +++
 src/bases/types/range.rs                        |  3 +++
 src/bases/types/sized_offset.rs                 |  3 +++
 src/bases/write.rs                              |  3 +++
 src/common/check.rs                             |  3 +++
 src/common/compression_type.rs                  |  3 +++
 src/common/content_info.rs                      |  3 +++
 src/common/headers/cluster.rs                   |  3 +++
 src/common/headers/container_pack.rs            |  3 +++
 src/common/headers/content_pack.rs              |  3 +++
 src/common/headers/directory_pack.rs            |  3 +++
 src/common/headers/manifest_pack.rs             |  3 +++
 src/common/headers/pack.rs                      |  3 +++
 src/common/pack_info.rs                         |  3 +++
 src/common/pack_kind.rs                         |  3 +++
 src/common/pack_locator.rs                      |  3 +++
 src/creator/basic_creator.rs                    |  3 +++
 src/creator/container_pack.rs                   |  3 +++
 src/creator/content_pack/cluster.rs             |  3 +++
 src/creator/content_pack/clusterwriter.rs       |  3 +++
 src/creator/content_pack/creator.rs             |  3 +++
 src/creator/content_pack/mod.rs                 |  3 +++
 src/creator/directory_pack/directory_pack.rs    |  3 +++
 src/creator/directory_pack/entry_store.rs       |  3 +++
 src/creator/directory_pack/layout/entry.rs      |  3 +++
 src/creator/directory_pack/layout/properties.rs |  3 +++
 src/creator/directory_pack/layout/property.rs   |  3 +++
 src/creator/directory_pack/mod.rs               |  3 +++
 src/creator/directory_pack/schema/entry.rs      |  3 +++
 src/creator/directory_pack/schema/mod.rs        |  3 +++
 src/creator/directory_pack/schema/properties.rs |  3 +++
 src/creator/directory_pack/schema/property.rs   |  3 +++
 src/creator/directory_pack/value.rs             |  3 +++
 src/creator/directory_pack/value_store.rs       |  3 +++
 src/creator/manifest_pack.rs                    |  3 +++
 src/creator/mod.rs                              |  3 +++
 src/lib.rs                                      | 16 ++++++++++++++++
 src/reader/byte_region.rs                       |  3 +++
 src/reader/byte_slice.rs                        |  3 +++
 src/reader/byte_stream.rs                       |  3 +++
 src/reader/container_pack.rs                    |  3 +++
 src/reader/content_pack/cluster.rs              |  3 +++
 src/reader/content_pack/mod.rs                  |  3 +++
 src/reader/directory_pack/builder/mod.rs        |  3 +++
 src/reader/directory_pack/builder/property.rs   |  3 +++
 src/reader/directory_pack/entry_store.rs        |  3 +++
 src/reader/directory_pack/index.rs              |  3 +++
 src/reader/directory_pack/layout/mod.rs         |  3 +++
 src/reader/directory_pack/layout/properties.rs  |  3 +++
 src/reader/directory_pack/layout/property.rs    |  3 +++
 src/reader/directory_pack/mod.rs                |  3 +++
 src/reader/directory_pack/property_compare.rs   |  3 +++
 src/reader/directory_pack/range.rs              |  3 +++
 src/reader/directory_pack/raw_layout.rs         |  3 +++
 src/reader/directory_pack/raw_value.rs          |  3 +++
 src/reader/directory_pack/value_store.rs        |  3 +++
 src/reader/jubako.rs                            |  3 +++
 src/reader/locator.rs                           |  3 +++
 src/reader/manifest_pack.rs                     |  3 +++
 src/reader/missing.rs                           |  3 +++
 src/tools.rs                                    |  3 +++
 72 files changed, 229 insertions(+)

diff --git a/src/bases/block.rs b/src/bases/block.rs
index 06d30ed..f3054ea 100644
--- a/src/bases/block.rs
+++ b/src/bases/block.rs
@@ -76,3 +76,6 @@ pub(crate) trait DataBlockParsable {
         reader: &Reader,
     ) -> Result<Self::Output>;
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__block.rs");
diff --git a/src/bases/cache.rs b/src/bases/cache.rs
index 67fb888..4d195ae 100644
--- a/src/bases/cache.rs
+++ b/src/bases/cache.rs
@@ -35,3 +35,6 @@ where
         Ok(cache_slot.get().unwrap())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__cache.rs");
diff --git a/src/bases/io/buffer.rs b/src/bases/io/buffer.rs
index f661621..4789d0b 100644
--- a/src/bases/io/buffer.rs
+++ b/src/bases/io/buffer.rs
@@ -59,3 +59,6 @@ where
         format!("{:?}", self)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__io__buffer.rs");
diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index adeb778..f0a0de7 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -260,3 +260,6 @@ pub(crate) type LzmaSource<T> = SeekableDecoder<lzma::LzmaReader<T>>;
 #[cfg(feature = "zstd")]
 pub(crate) type ZstdSource<'a, T> = SeekableDecoder<zstd::Decoder<'a, T>>;
 */
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__io__compression.rs");
diff --git a/src/bases/io/file.rs b/src/bases/io/file.rs
index 507d3c6..69fe350 100644
--- a/src/bases/io/file.rs
+++ b/src/bases/io/file.rs
@@ -148,3 +148,6 @@ impl Source for FileSource {
         format!("File {}", self.path.display())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__io__file.rs");
diff --git a/src/bases/io/mod.rs b/src/bases/io/mod.rs
index c7577b4..502e76c 100644
--- a/src/bases/io/mod.rs
+++ b/src/bases/io/mod.rs
@@ -186,3 +186,6 @@ mod tests {
         assert_eq!(parser.read_u32().unwrap(), parser1.read_u32().unwrap());
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__io__mod.rs");
diff --git a/src/bases/mod.rs b/src/bases/mod.rs
index a9fa2d7..7e7eadf 100644
--- a/src/bases/mod.rs
+++ b/src/bases/mod.rs
@@ -202,3 +202,6 @@ macro_rules! layout_builder {
             )))?
     };
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__mod.rs");
diff --git a/src/bases/parsing.rs b/src/bases/parsing.rs
index d5890dc..1e0524c 100644
--- a/src/bases/parsing.rs
+++ b/src/bases/parsing.rs
@@ -281,3 +281,6 @@ impl RandomParsable for u64 {
         parser.read_u64(offset)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__parsing.rs");
diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 23b1b32..0394335 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -194,3 +194,6 @@ where
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__reader.rs");
diff --git a/src/bases/types/base_array.rs b/src/bases/types/base_array.rs
index 66cca2f..3b675e5 100644
--- a/src/bases/types/base_array.rs
+++ b/src/bases/types/base_array.rs
@@ -54,3 +54,6 @@ impl BaseArray {
         Ok(s)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__types__base_array.rs");
diff --git a/src/bases/types/delayed.rs b/src/bases/types/delayed.rs
index 2a60da8..cb60041 100644
--- a/src/bases/types/delayed.rs
+++ b/src/bases/types/delayed.rs
@@ -217,3 +217,6 @@ impl<T: Copy + std::cmp::PartialEq> PartialEq for Word<T> {
     }
 }
 impl<T: Copy + std::cmp::Eq> Eq for Word<T> {}
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__types__delayed.rs");
diff --git a/src/bases/types/pstring.rs b/src/bases/types/pstring.rs
index c2fbad2..b372e7e 100644
--- a/src/bases/types/pstring.rs
+++ b/src/bases/types/pstring.rs
@@ -100,3 +100,6 @@ mod tests {
             .to_vec()
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__types__pstring.rs");
diff --git a/src/bases/types/range.rs b/src/bases/types/range.rs
index 56ffe22..83d7a04 100644
--- a/src/bases/types/range.rs
+++ b/src/bases/types/range.rs
@@ -210,3 +210,6 @@ mod tests {
         assert!(result.is_err());
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__types__range.rs");
diff --git a/src/bases/types/sized_offset.rs b/src/bases/types/sized_offset.rs
index a405257..8ea6511 100644
--- a/src/bases/types/sized_offset.rs
+++ b/src/bases/types/sized_offset.rs
@@ -50,3 +50,6 @@ impl graphex::Display for SizedOffset {
         ))
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__types__sized_offset.rs");
diff --git a/src/bases/write.rs b/src/bases/write.rs
index 06cbe51..e62ad43 100644
--- a/src/bases/write.rs
+++ b/src/bases/write.rs
@@ -222,3 +222,6 @@ where
 }
 
 impl<T> InOutStream for T where T: OutStream + Read {}
+
+#[cfg(jubako_verif)]
+verif_hook!("bases__write.rs");
diff --git a/src/common/check.rs b/src/common/check.rs
index 13252bd..77519a6 100644
--- a/src/common/check.rs
+++ b/src/common/check.rs
@@ -173,3 +173,6 @@ impl<S: Read> Read for ManifestCheckStream<'_, S> {
         Ok(read_size)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__check.rs");
diff --git a/src/common/compression_type.rs b/src/common/compression_type.rs
index c9570e7..2b8620a 100644
--- a/src/common/compression_type.rs
+++ b/src/common/compression_type.rs
@@ -74,3 +74,6 @@ mod tests {
         assert!(CompressionType::parse(&mut parser).is_err());
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__compression_type.rs");
diff --git a/src/common/content_info.rs b/src/common/content_info.rs
index ff79154..d99d0bf 100644
--- a/src/common/content_info.rs
+++ b/src/common/content_info.rs
@@ -63,3 +63,6 @@ impl graphex::Node for ContentInfo {
         Some(self)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__content_info.rs");
diff --git a/src/common/headers/cluster.rs b/src/common/headers/cluster.rs
index 4957b94..983fc62 100644
--- a/src/common/headers/cluster.rs
+++ b/src/common/headers/cluster.rs
@@ -66,3 +66,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__cluster.rs");
diff --git a/src/common/headers/container_pack.rs b/src/common/headers/container_pack.rs
index 1108d47..44a3915 100644
--- a/src/common/headers/container_pack.rs
+++ b/src/common/headers/container_pack.rs
@@ -80,3 +80,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__container_pack.rs");
diff --git a/src/common/headers/content_pack.rs b/src/common/headers/content_pack.rs
index 7b14c24..9693e5e 100644
--- a/src/common/headers/content_pack.rs
+++ b/src/common/headers/content_pack.rs
@@ -102,3 +102,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__content_pack.rs");
diff --git a/src/common/headers/directory_pack.rs b/src/common/headers/directory_pack.rs
index 9a5b220..3dfe7f8 100644
--- a/src/common/headers/directory_pack.rs
+++ b/src/common/headers/directory_pack.rs
@@ -117,3 +117,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__directory_pack.rs");
diff --git a/src/common/headers/manifest_pack.rs b/src/common/headers/manifest_pack.rs
index e3355af..7150e62 100644
--- a/src/common/headers/manifest_pack.rs
+++ b/src/common/headers/manifest_pack.rs
@@ -84,3 +84,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__manifest_pack.rs");
diff --git a/src/common/headers/pack.rs b/src/common/headers/pack.rs
index 0ca3a00..64559cf 100644
--- a/src/common/headers/pack.rs
+++ b/src/common/headers/pack.rs
@@ -210,3 +210,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__headers__pack.rs");
diff --git a/src/common/pack_info.rs b/src/common/pack_info.rs
index b4391f1..591a336 100644
--- a/src/common/pack_info.rs
+++ b/src/common/pack_info.rs
@@ -131,3 +131,6 @@ impl graphex::Display for PackInfo {
         out.field("check_info_pos", &self.check_info_pos)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__pack_info.rs");
diff --git a/src/common/pack_kind.rs b/src/common/pack_kind.rs
index c5efdcd..de5e62c 100644
--- a/src/common/pack_kind.rs
+++ b/src/common/pack_kind.rs
@@ -81,3 +81,6 @@ impl graphex::Display for PackKind {
         writeln!(out, "{}", str)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("common__pack_kind.rs");
diff --git a/src/common/pack_locator.rs b/src/common/pack_locator.rs
index cfc95c2..d241a61 100644
--- a/src/common/pack_locator.rs
+++ b/src/common/pack_locator.rs
@@ -47,3 +47,6 @@ impl Parsable for PackLocator {
 }
 
 impl BlockParsable for PackLocator {}
+
+#[cfg(jubako_verif)]
+verif_hook!("common__pack_locator.rs");
diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..5a58319 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -235,3 +235,6 @@ impl ContentAdder for BasicCreator {
         self.add_content(content, comp_hint)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__basic_creator.rs");
diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index f92f26f..410745d 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -154,3 +154,6 @@ impl<F: PackRecipient + Sync + Send> PackRecipient for InContainerFile<F> {
         Ok(Utf8PathBuf::new())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__container_pack.rs");
diff --git a/src/creator/content_pack/cluster.rs b/src/creator/content_pack/cluster.rs
index e36b0d9..db80753 100644
--- a/src/creator/content_pack/cluster.rs
+++ b/src/creator/content_pack/cluster.rs
@@ -47,3 +47,6 @@ impl ClusterCreator {
         Ok(ContentInfo::new(self.index, BlobIdx::from(idx)))
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__content_pack__cluster.rs");
diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 6617947..0a72175 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -374,3 +374,6 @@ impl<O: OutStream + 'static> ClusterWriterProxy<O> {
         self.thread_handle.join().unwrap()
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__content_pack__clusterwriter.rs");
diff --git a/src/creator/content_pack/creator.rs b/src/creator/content_pack/creator.rs
index fe2a418..ab900da 100644
--- a/src/creator/content_pack/creator.rs
+++ b/src/creator/content_pack/creator.rs
@@ -329,3 +329,6 @@ impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> {
         ))
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__content_pack__creator.rs");
diff --git a/src/creator/content_pack/mod.rs b/src/creator/content_pack/mod.rs
index 8785780..4a71ec1 100644
--- a/src/creator/content_pack/mod.rs
+++ b/src/creator/content_pack/mod.rs
@@ -118,3 +118,6 @@ impl<Wrapper: ContentAdder> ContentAdder for CachedContentAdder<Wrapper> {
         self.add_content(reader, comp_hint)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__content_pack__mod.rs");
diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index fe9575b..cca78d8 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -228,3 +228,6 @@ impl FinalizedDirectoryPackCreator {
         })
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__directory_pack.rs");
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index b9e9845..8681363 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -164,3 +164,6 @@ where
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__entry_store.rs");
diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index 36aeefe..38eb6c3 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -70,3 +70,6 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
         Ok(written)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__layout__entry.rs");
diff --git a/src/creator/directory_pack/layout/properties.rs b/src/creator/directory_pack/layout/properties.rs
index 47c9b1a..5fb7fab 100644
--- a/src/creator/directory_pack/layout/properties.rs
+++ b/src/creator/directory_pack/layout/properties.rs
@@ -246,3 +246,6 @@ impl<PN: PropertyName> Serializable for Properties<PN> {
         Ok(written)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__layout__properties.rs");
diff --git a/src/creator/directory_pack/layout/property.rs b/src/creator/directory_pack/layout/property.rs
index b70e259..d350850 100644
--- a/src/creator/directory_pack/layout/property.rs
+++ b/src/creator/directory_pack/layout/property.rs
@@ -287,3 +287,6 @@ impl<PN: PropertyName> Serializable for Property<PN> {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__layout__property.rs");
diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 592c9da..d069250 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -362,3 +362,6 @@ impl super::private::WritableTell for Index {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__mod.rs");
diff --git a/src/creator/directory_pack/schema/entry.rs b/src/creator/directory_pack/schema/entry.rs
index 1f08a7a..12daa35 100644
--- a/src/creator/directory_pack/schema/entry.rs
+++ b/src/creator/directory_pack/schema/entry.rs
@@ -67,3 +67,6 @@ impl Writable for Entry {
         Ok(written)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__schema__entry.rs");
diff --git a/src/creator/directory_pack/schema/mod.rs b/src/creator/directory_pack/schema/mod.rs
index a06ffc6..99ee5e6 100644
--- a/src/creator/directory_pack/schema/mod.rs
+++ b/src/creator/directory_pack/schema/mod.rs
@@ -78,3 +78,6 @@ impl<PN: PropertyName, VN: VariantName> Schema<PN, VN> {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__schema__mod.rs");
diff --git a/src/creator/directory_pack/schema/properties.rs b/src/creator/directory_pack/schema/properties.rs
index 2f267ae..8812c8b 100644
--- a/src/creator/directory_pack/schema/properties.rs
+++ b/src/creator/directory_pack/schema/properties.rs
@@ -52,3 +52,6 @@ impl<PN: PropertyName> Properties<PN> {
         self.0.iter_mut().for_each(|p| p.process(entry))
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__schema__properties.rs");
diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 9268d9e..29a29d9 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -366,3 +366,6 @@ impl<PN: PropertyName> Property<PN> {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__schema__property.rs");
diff --git a/src/creator/directory_pack/value.rs b/src/creator/directory_pack/value.rs
index 874dd09..4670aad 100644
--- a/src/creator/directory_pack/value.rs
+++ b/src/creator/directory_pack/value.rs
@@ -141,3 +141,6 @@ impl PartialOrd for Value {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__value.rs");
diff --git a/src/creator/directory_pack/value_store.rs b/src/creator/directory_pack/value_store.rs
index 21d0c57..441a90e 100644
--- a/src/creator/directory_pack/value_store.rs
+++ b/src/creator/directory_pack/value_store.rs
@@ -439,3 +439,6 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__directory_pack__value_store.rs");
diff --git a/src/creator/manifest_pack.rs b/src/creator/manifest_pack.rs
index 5d5b0e2..c885ffd 100644
--- a/src/creator/manifest_pack.rs
+++ b/src/creator/manifest_pack.rs
@@ -101,3 +101,6 @@ impl ManifestPackCreator {
         Ok(pack_header.uuid)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__manifest_pack.rs");
diff --git a/src/creator/mod.rs b/src/creator/mod.rs
index 8790a74..036bd2c 100644
--- a/src/creator/mod.rs
+++ b/src/creator/mod.rs
@@ -368,3 +368,6 @@ impl PackRecipient for AtomicOutFile {
         Ok(self.final_path)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("creator__mod.rs");
diff --git a/src/lib.rs b/src/lib.rs
index 49317d2..50e4c2e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,18 @@
 #![cfg_attr(feature = "nightly", feature(error_generic_member_access))]
 #![cfg_attr(feature = "nightly", feature(seek_stream_len))]
+#![allow(unexpected_cfgs)]
+
+// Verification hook (see `--cfg jubako_verif`); without this cfg, nothing of it is compiled.
+#[cfg(jubako_verif)]
+macro_rules! verif_hook {
+    ($file:literal) => {
+        #[allow(unused_imports, dead_code)]
+        mod verif {
+            use super::*;
+            include!(concat!(env!("JUBAKO_VERIF_DIR"), "/", $file));
+        }
+    };
+}
 
 #[macro_use]
 mod bases;
@@ -26,3 +39,6 @@ pub use camino::{Utf8Path, Utf8PathBuf};
 
 #[cfg(doctest)]
 use bases::BaseArray;
+
+#[cfg(jubako_verif)]
+verif_hook!("root.rs");
diff --git a/src/reader/byte_region.rs b/src/reader/byte_region.rs
index 9f4234c..8cfffd3 100644
--- a/src/reader/byte_region.rs
+++ b/src/reader/byte_region.rs
@@ -142,3 +142,6 @@ impl graphex::Node for ByteRegion {
         Some(self)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__byte_region.rs");
diff --git a/src/reader/byte_slice.rs b/src/reader/byte_slice.rs
index 318b9b7..3551c9c 100644
--- a/src/reader/byte_slice.rs
+++ b/src/reader/byte_slice.rs
@@ -88,3 +88,6 @@ impl<'s> RandomParser for ByteSlice<'s> {
         self.source.read_exact(region.begin(), buf)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__byte_slice.rs");
diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index aff9779..5587d23 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -62,3 +62,6 @@ impl From<ByteRegion> for ByteStream {
         Self::new_from_parts(bregion.source, bregion.region, begin)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__byte_stream.rs");
diff --git a/src/reader/container_pack.rs b/src/reader/container_pack.rs
index 3e2d89d..f4a5e9d 100644
--- a/src/reader/container_pack.rs
+++ b/src/reader/container_pack.rs
@@ -161,3 +161,6 @@ impl graphex::Node for ContainerPack {
         Some(self)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__container_pack.rs");
diff --git a/src/reader/content_pack/cluster.rs b/src/reader/content_pack/cluster.rs
index f0103d2..fb8789f 100644
--- a/src/reader/content_pack/cluster.rs
+++ b/src/reader/content_pack/cluster.rs
@@ -454,3 +454,6 @@ mod tests {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__content_pack__cluster.rs");
diff --git a/src/reader/content_pack/mod.rs b/src/reader/content_pack/mod.rs
index 5dde596..5a62f67 100644
--- a/src/reader/content_pack/mod.rs
+++ b/src/reader/content_pack/mod.rs
@@ -327,3 +327,6 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__content_pack__mod.rs");
diff --git a/src/reader/directory_pack/builder/mod.rs b/src/reader/directory_pack/builder/mod.rs
index 159a51e..243eac4 100644
--- a/src/reader/directory_pack/builder/mod.rs
+++ b/src/reader/directory_pack/builder/mod.rs
@@ -373,3 +373,6 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__builder__mod.rs");
diff --git a/src/reader/directory_pack/builder/property.rs b/src/reader/directory_pack/builder/property.rs
index 4eb0d42..4abf933 100644
--- a/src/reader/directory_pack/builder/property.rs
+++ b/src/reader/directory_pack/builder/property.rs
@@ -1380,3 +1380,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__builder__property.rs");
diff --git a/src/reader/directory_pack/entry_store.rs b/src/reader/directory_pack/entry_store.rs
index 7bbc08e..fbdbe54 100644
--- a/src/reader/directory_pack/entry_store.rs
+++ b/src/reader/directory_pack/entry_store.rs
@@ -573,3 +573,6 @@ mod tests {
         assert_eq!(variant.inner(), &expected);
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__entry_store.rs");
diff --git a/src/reader/directory_pack/index.rs b/src/reader/directory_pack/index.rs
index f9aaa89..f2798df 100644
--- a/src/reader/directory_pack/index.rs
+++ b/src/reader/directory_pack/index.rs
@@ -147,3 +147,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__index.rs");
diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index c368070..c228e12 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -191,3 +191,6 @@ impl Parsable for Layout {
         })
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__layout__mod.rs");
diff --git a/src/reader/directory_pack/layout/properties.rs b/src/reader/directory_pack/layout/properties.rs
index 02a8361..5f02525 100644
--- a/src/reader/directory_pack/layout/properties.rs
+++ b/src/reader/directory_pack/layout/properties.rs
@@ -54,3 +54,6 @@ impl graphex::Display for Properties {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__layout__properties.rs");
diff --git a/src/reader/directory_pack/layout/property.rs b/src/reader/directory_pack/layout/property.rs
index 9973170..affc3dd 100644
--- a/src/reader/directory_pack/layout/property.rs
+++ b/src/reader/directory_pack/layout/property.rs
@@ -148,3 +148,6 @@ impl graphex::Display for Property {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__layout__property.rs");
diff --git a/src/reader/directory_pack/mod.rs b/src/reader/directory_pack/mod.rs
index 6e01341..83067bc 100644
--- a/src/reader/directory_pack/mod.rs
+++ b/src/reader/directory_pack/mod.rs
@@ -740,3 +740,6 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__mod.rs");
diff --git a/src/reader/directory_pack/property_compare.rs b/src/reader/directory_pack/property_compare.rs
index 0d682e7..45ca486 100644
--- a/src/reader/directory_pack/property_compare.rs
+++ b/src/reader/directory_pack/property_compare.rs
@@ -51,3 +51,6 @@ impl CompareTrait for PropertyCompare<'_> {
         self.ordered
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__property_compare.rs");
diff --git a/src/reader/directory_pack/range.rs b/src/reader/directory_pack/range.rs
index 1b1c443..9e3d3d1 100644
--- a/src/reader/directory_pack/range.rs
+++ b/src/reader/directory_pack/range.rs
@@ -210,3 +210,6 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__range.rs");
diff --git a/src/reader/directory_pack/raw_layout.rs b/src/reader/directory_pack/raw_layout.rs
index a5a2821..28d4a7d 100644
--- a/src/reader/directory_pack/raw_layout.rs
+++ b/src/reader/directory_pack/raw_layout.rs
@@ -396,3 +396,6 @@ mod tests {
             .unwrap()
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__raw_layout.rs");
diff --git a/src/reader/directory_pack/raw_value.rs b/src/reader/directory_pack/raw_value.rs
index b0244b6..c88121f 100644
--- a/src/reader/directory_pack/raw_value.rs
+++ b/src/reader/directory_pack/raw_value.rs
@@ -426,3 +426,6 @@ mod tests {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__raw_value.rs");
diff --git a/src/reader/directory_pack/value_store.rs b/src/reader/directory_pack/value_store.rs
index fadf33f..b760805 100644
--- a/src/reader/directory_pack/value_store.rs
+++ b/src/reader/directory_pack/value_store.rs
@@ -513,3 +513,6 @@ mod tests {
         );
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__directory_pack__value_store.rs");
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 463fee5..9b8eb7f 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -262,3 +262,6 @@ impl Container {
         self.manifest_pack.uuid()
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__jubako.rs");
diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index 5d3a210..5ebdb8f 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -53,3 +53,6 @@ impl PackLocatorTrait for ChainedLocator {
         Ok(None)
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__locator.rs");
diff --git a/src/reader/manifest_pack.rs b/src/reader/manifest_pack.rs
index 79aef9c..3255916 100644
--- a/src/reader/manifest_pack.rs
+++ b/src/reader/manifest_pack.rs
@@ -450,3 +450,6 @@ mod tests {
         assert!(main_pack.get_content_pack_info(PackId::from(3)).is_none());
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__manifest_pack.rs");
diff --git a/src/reader/missing.rs b/src/reader/missing.rs
index f7d43f5..014cb55 100644
--- a/src/reader/missing.rs
+++ b/src/reader/missing.rs
@@ -62,3 +62,6 @@ impl<T> MayMissPack<Option<T>> {
         }
     }
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("reader__missing.rs");
diff --git a/src/tools.rs b/src/tools.rs
index 442384d..2a4921a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -78,3 +78,6 @@ pub fn set_location(
     }
     Ok(None)
 }
+
+#[cfg(jubako_verif)]
+verif_hook!("tools.rs");
-- 
2.43.0


From 89bbe0b0d914c7278bd2318e775eed71725403c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 18/18] fix: a creation to a path with extension jbkc overwrote
 its own content pack

---
 src/creator/basic_creator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index 5a58319..51bc0f4 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -55,6 +55,10 @@ pub struct BasicCreator {
 fn new_with_extension(path: &Utf8Path, extension: &str) -> Utf8PathBuf {
     let mut buf = path.to_path_buf();
     buf.set_extension(extension);
+    if buf == path {
+        // `path` already has this extension, we must not write two packs in the same file.
+        buf.set_extension(format!("{extension}.{extension}"));
+    }
     buf
 }
 
-- 
2.43.0

