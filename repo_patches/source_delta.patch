From 087547138995aa590f67a8f2bb5fda68e838cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 01/24] fix: order the sentinel after every other element from
 both sides

---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From fe1c66b3d5f1a4fd0f5303c9de80f8a00a81684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 02/24] fix: accept relations right after nodes in the
 sequential writer

---
 src/osm/pbf/element_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..33bc49e 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -43,7 +43,10 @@ impl ElementAccumulator {
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                        self.index += 1;
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
-- 
2.43.0


From 761d91cde6e7e9336f2cd619777bbc7436b6bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 03/24] fix: write every kind of element of a mixed block, not
 only the first

---
 src/osm/pbf/osm_data.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..dd6da8a 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,22 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
+        let mut primitivegroup = Vec::<PrimitiveGroup>::new();
         if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+            primitivegroup.push(dense_group_builder.unwrap().build());
+        }
+        if ways_group_builder.is_some() {
+            primitivegroup.push(ways_group_builder.unwrap().build());
+        }
+        if relations_group_builder.is_some() {
+            primitivegroup.push(relations_group_builder.unwrap().build());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From 4f826be7e8c183a7067aefa780dfecb72153f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 04/24] fix: round the header bounding box to nanodegrees
 instead of truncating it

---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From ab78e7e89e2350f3c2d2f39b7898bfe06ff7861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 05/24] fix: store empty blocks as empty data, so that an empty
 header can be read back

---
 src/osm/pbf/file_block.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..d65f85f 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -178,20 +178,16 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From 6968d8df04ee218d4be0f4005e2ad5c5b512dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 06/24] fix: decode dense nodes whose metadata arrays are
 partly absent

---
 src/osm/pbf/osm_data.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index dd6da8a..a74f6ba 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -114,18 +114,29 @@ impl OsmData {
                 let mut version = 0_i32;
                 let mut user: String = String::default();
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
+                    // each of the metadata arrays is optional
+                    if let Some(delta) = info.timestamp.get(i) {
+                        last_timestamp += delta;
+                    }
                     timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
+                    match info.changeset.get(i) {
+                        Some(delta) => { last_changeset += delta; }
+                        None => { last_changeset = -1; }
+                    }
+                    match info.uid.get(i) {
+                        Some(delta) => { uid += delta; }
+                        None => { uid = -1; }
+                    }
+                    if let Some(delta) = info.user_sid.get(i) {
+                        last_user_sid += delta;
+                    }
                     let user_sid = last_user_sid as usize;
                     if info.visible.len() > i {
                         visible = info.visible[i];
                     } else {
                         visible = true;
                     }
-                    version = info.version[i];
+                    version = info.version.get(i).copied().unwrap_or(-1);
                     user = string_table.index(user_sid).clone();
                 }
 
-- 
2.43.0


From a357b7a86631d1d52aa4c2c1ca7885ca11c89298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 07/24] fix: decompress blobs of unknown size and refuse blobs
 of a wrong size

---
 src/osm/pbf/file_block.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index d65f85f..43d96e6 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -95,11 +95,18 @@ impl FileBlock {
         }
     }
 
-    fn zlib_decode(data: Vec<u8>, raw_size: usize) -> Result<Vec<u8>, anyhow::Error> {
+    fn zlib_decode(data: Vec<u8>, raw_size: Option<i32>) -> Result<Vec<u8>, anyhow::Error> {
         let mut decoder = ZlibDecoder::new(data.as_slice());
-        let mut decoded = vec![0_u8; raw_size];
-        decoder.read_exact(&mut decoded)?;
-        Ok(decoded)
+        let mut decoded = Vec::<u8>::new();
+        decoder.read_to_end(&mut decoded)?;
+        match raw_size {
+            Some(raw_size) if raw_size as usize != decoded.len() => {
+                Err(anyhow!("Uncompressed blob holds {} bytes instead of {}", decoded.len(), raw_size))
+            }
+            _ => {
+                Ok(decoded)
+            }
+        }
     }
 
     fn zlib_encode(buf: Vec<u8>, compression_level: Compression) -> Result<Vec<u8>, anyhow::Error> {
@@ -124,8 +131,8 @@ impl FileBlock {
                         Ok(raw_data)
                     }
                     Data::ZlibData(zlib_data) => {
-                        // for now ignore that the uncompressed size is optional
-                        FileBlock::zlib_decode(zlib_data, blob.raw_size.unwrap() as usize)
+                        // the uncompressed size is optional
+                        FileBlock::zlib_decode(zlib_data, blob.raw_size)
                     }
                     Data::LzmaData(_) => {
                         Err(
-- 
2.43.0


From e726b8e6efccb6e8877ec645731b704ee021a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 08/24] fix: report truncated and inconsistent framing instead
 of ending the iteration

---
 src/osm/pbf/blob_iterator.rs           | 61 ++++++++++++++++++--------
 src/osm/pbf/bounding_box_calculator.rs | 25 +++++++----
 src/osm/pbf/file_block_iterator.rs     |  3 +-
 src/osm/pbf/reader.rs                  | 29 +++++++-----
 4 files changed, 81 insertions(+), 37 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..7e7349e 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -6,7 +6,7 @@ use std::path::PathBuf;
 use anyhow::{anyhow, Context};
 use prost::Message;
 
-use crate::osm;
+use crate::osm::pbf::blob_desc::BlobDesc;
 use crate::osmpbf;
 
 pub struct BlobIterator {
@@ -14,6 +14,7 @@ pub struct BlobIterator {
     file: File,
     jump: u64,
     index: usize,
+    failed: bool,
 }
 
 impl BlobIterator {
@@ -26,29 +27,53 @@ impl BlobIterator {
                 file,
                 jump: 0,
                 index: 0,
+                failed: false,
             }
         )
     }
-}
-
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
 
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
-        let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
-        let blob_header_len = i32::from_be_bytes(header_len_buffer);
-        let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
-        let length = blob_header.datasize as u64;
+    /// Read the description of the next blob or `None` when the file ends behind the previous one
+    fn read_blob_desc(&mut self) -> Result<Option<BlobDesc>, anyhow::Error> {
+        self.file.seek(SeekFrom::Current(self.jump as i64))?;
+        let mut header_len_bytes = Vec::<u8>::with_capacity(4);
+        (&self.file).take(4).read_to_end(&mut header_len_bytes)?;
+        if header_len_bytes.is_empty() {
+            return Ok(None);
+        }
+        let header_len_buffer: [u8; 4] = header_len_bytes.as_slice().try_into()
+            .with_context(|| anyhow!("truncated blob header length"))?;
+        let blob_header_len = u64::try_from(i32::from_be_bytes(header_len_buffer))
+            .with_context(|| anyhow!("negative blob header length"))?;
+        let mut blob_header_buffer = Vec::<u8>::new();
+        (&self.file).take(blob_header_len).read_to_end(&mut blob_header_buffer)?;
+        if blob_header_buffer.len() as u64 != blob_header_len {
+            return Err(anyhow!("truncated blob header"));
+        }
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
+        let current_offset = self.file.stream_position()?;
+        let length = u64::try_from(blob_header.datasize)
+            .with_context(|| anyhow!("negative blob size"))?;
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            Some(
+                BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+            )
         )
     }
-}
\ No newline at end of file
+}
+
+impl Iterator for BlobIterator {
+    type Item = Result<BlobDesc, anyhow::Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            return None;
+        }
+        let result = self.read_blob_desc()
+            .with_context(|| anyhow!("Failed to read blob {} from {:?}", self.index, self.path));
+        self.failed = result.is_err();
+        result.transpose()
+    }
+}
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..8d88835 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -33,19 +33,28 @@ impl BoundingBoxCalculator {
             )
         );
         let reader = Reader::new(&self.path)?;
+        let mut blob_result = Ok(());
         for blob in reader.blobs()? {
-            tp.submit(
-                Box::new(
-                    CalcBoundingBoxCommand::new(
-                        blob,
-                        result.clone(),
-                    )
-                )
-            );
+            match blob {
+                Ok(blob) => {
+                    tp.submit(
+                        Box::new(
+                            CalcBoundingBoxCommand::new(
+                                blob,
+                                result.clone(),
+                            )
+                        )
+                    );
+                }
+                Err(e) => {
+                    blob_result = Err(e);
+                }
+            }
         }
 
         tp.shutdown();
         tp.join()?;
+        blob_result?;
         let mut result_guard = result.lock().unwrap();
         Ok(result_guard.take().unwrap())
     }
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..d9c79ab 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -18,7 +18,8 @@ impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
+        let blob_desc = self.blob_iterator.next()?
+            .unwrap_or_else(|e| panic!("Failed to read a blob: {e:?}"));
         Some(
             FileBlock::from_blob_desc(&blob_desc)
                 .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..e62b274 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -10,6 +10,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::element_iterator::ElementIterator;
+use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
@@ -49,10 +50,10 @@ impl Reader {
             path: path.to_path_buf(),
             info: Default::default(),
         };
-        let mut block_iterator = reader.clone().blocks()?;
-        let file_block = block_iterator.next().ok_or(
+        let blob_desc = reader.blobs()?.next().ok_or(
             anyhow!("Failed to parse file header, path: {}", path.display())
-        )?;
+        )??;
+        let file_block = FileBlock::from_blob_desc(&blob_desc)?;
         let osm_header = file_block.as_osm_header()?;
         reader.info = osm_header.info().clone();
 
@@ -189,18 +190,26 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
+        let mut result = Ok(());
         for blob_desc in self.blobs()? {
-            let f_wrapper_clone = f_wrapper.clone();
-            iteration_pool.submit(
-                Box::new(
-                    ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
-                )
-            );
+            match blob_desc {
+                Ok(blob_desc) => {
+                    let f_wrapper_clone = f_wrapper.clone();
+                    iteration_pool.submit(
+                        Box::new(
+                            ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
+                        )
+                    );
+                }
+                Err(e) => {
+                    result = Err(e);
+                }
+            }
         }
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        result
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From 670234944a556381d62e0629fd87358a58cc3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 09/24] fix: go on behind header blocks and skip blobs of
 unknown types

---
 src/osm/pbf/blob_iterator.rs    |  7 ++++++-
 src/osm/pbf/element_iterator.rs | 32 ++++++++++----------------------
 2 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 7e7349e..017f5e0 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -71,7 +71,12 @@ impl Iterator for BlobIterator {
         if self.failed {
             return None;
         }
-        let result = self.read_blob_desc()
+        let mut result = self.read_blob_desc();
+        // parsers have to ignore blobs of other types than these, only the first one is always a header
+        while matches!(&result, Ok(Some(desc)) if desc.index() > 0 && !matches!(desc.t().as_str(), "OSMHeader" | "OSMData")) {
+            result = self.read_blob_desc();
+        }
+        let result = result
             .with_context(|| anyhow!("Failed to read blob {} from {:?}", self.index, self.path));
         self.failed = result.is_err();
         result.transpose()
diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..5847704 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -21,17 +21,14 @@ impl ElementIterator {
         }
     }
 
-    #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        // a header block holds no elements, wherever it is
+        for current_block in file_block_iterator {
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
@@ -39,22 +36,13 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        while let Some(element_iterator) = &mut self.element_iterator {
+            let element = element_iterator.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
+        None
     }
 }
-- 
2.43.0


From b984092daf4c99fa507604cc87d6ee08c9aa3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 10/24] fix: return an error for inconsistent data blocks
 instead of killing the reading thread

---
 src/osm/pbf/osm_data.rs | 107 ++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index a74f6ba..ba4f8c7 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -1,7 +1,7 @@
 use std::borrow::Borrow;
 use std::io::Cursor;
-use std::ops::Index;
 
+use anyhow::anyhow;
 use prost::Message;
 
 use crate::{osm, osmpbf};
@@ -22,24 +22,24 @@ pub struct OsmData {
 impl OsmData {
     pub fn new(data: Vec<u8>) -> Result<OsmData, anyhow::Error> {
         let primitive_block = PrimitiveBlock::decode(&mut Cursor::new(data))?;
-        let string_table: Vec<String> = primitive_block.stringtable.s.iter()
+        let string_table = primitive_block.stringtable.s.iter()
             .map(
                 |e| {
-                    String::from_utf8(e.clone()).unwrap()
+                    String::from_utf8(e.clone())
                 }
             )
-            .collect();
+            .collect::<Result<Vec<String>, _>>()?;
         let granularity = primitive_block.granularity() as i64;
         let date_granularity = primitive_block.date_granularity();
         let lat_offset = primitive_block.lat_offset();
         let lon_offset = primitive_block.lon_offset();
         let mut elements = Vec::<Element>::with_capacity(8000);
         for g in &primitive_block.primitivegroup {
-            Self::read_dense(&g.dense, &string_table, granularity, date_granularity, lat_offset, lon_offset, &mut elements);
-            Self::read_nodes(&g.nodes, &string_table, granularity, date_granularity, lat_offset, lon_offset, &mut elements);
-            Self::read_ways(&g.ways, &string_table, granularity, date_granularity, &mut elements);
-            Self::read_relations(&g.relations, &string_table, granularity, date_granularity, &mut elements);
-            Self::read_changesets(&g.changesets, &string_table, granularity, date_granularity, lat_offset, lon_offset, &mut elements);
+            Self::read_dense(&g.dense, &string_table, granularity, date_granularity, lat_offset, lon_offset, &mut elements)?;
+            Self::read_nodes(&g.nodes, &string_table, granularity, date_granularity, lat_offset, lon_offset, &mut elements)?;
+            Self::read_ways(&g.ways, &string_table, granularity, date_granularity, &mut elements)?;
+            Self::read_relations(&g.relations, &string_table, granularity, date_granularity, &mut elements)?;
+            Self::read_changesets(&g.changesets)?;
         }
         Ok(
             OsmData { elements, bounding_box: None }
@@ -85,7 +85,7 @@ impl OsmData {
         result
     }
 
-    fn read_dense(dense_group: &Option<osmpbf::DenseNodes>, string_table: &Vec<String>, granularity: i64, date_granularity: i32, lat_offset: i64, lon_offset: i64, elements: &mut Vec<Element>) {
+    fn read_dense(dense_group: &Option<osmpbf::DenseNodes>, string_table: &Vec<String>, granularity: i64, date_granularity: i32, lat_offset: i64, lon_offset: i64, elements: &mut Vec<Element>) -> Result<(), anyhow::Error> {
         if let Some(dense) = dense_group {
             let mut last_id = 0_i64;
             let mut last_lat = 0_i64;
@@ -108,8 +108,8 @@ impl OsmData {
             let mut key_val_iterator = <Vec<i32> as Borrow<Vec<i32>>>::borrow(&dense.keys_vals).iter();
             for (i, id) in <Vec<i64> as Borrow<Vec<i64>>>::borrow(&dense.id).iter().enumerate() {
                 last_id += id;
-                last_lat += dense.lat[i];
-                last_lon += dense.lon[i];
+                last_lat += Self::value(&dense.lat, i)?;
+                last_lon += Self::value(&dense.lon, i)?;
 
                 let mut version = 0_i32;
                 let mut user: String = String::default();
@@ -137,7 +137,7 @@ impl OsmData {
                         visible = true;
                     }
                     version = info.version.get(i).copied().unwrap_or(-1);
-                    user = string_table.index(user_sid).clone();
+                    user = Self::string(string_table, user_sid)?;
                 }
 
                 let mut tags = Vec::<osm::model::tag::Tag>::new();
@@ -146,11 +146,11 @@ impl OsmData {
                         break;
                     } else {
                         let key = *key_val as usize;
-                        let val = *key_val_iterator.next().unwrap() as usize;
+                        let val = *key_val_iterator.next().ok_or_else(|| anyhow!("a tag without a value"))? as usize;
                         tags.push(
                             osm::model::tag::Tag::new(
-                                string_table.index(key).clone(),
-                                string_table.index(val).clone(),
+                                Self::string(string_table, key)?,
+                                Self::string(string_table, val)?,
                             )
                         );
                     }
@@ -175,9 +175,10 @@ impl OsmData {
                 elements.push(Element::Node { node });
             }
         }
+        Ok(())
     }
 
-    fn read_nodes(node_group: &Vec<osmpbf::Node>, string_table: &[String], granularity: i64, date_granularity: i32, lat_offset: i64, lon_offset: i64, elements: &mut Vec<Element>) {
+    fn read_nodes(node_group: &Vec<osmpbf::Node>, string_table: &[String], granularity: i64, date_granularity: i32, lat_offset: i64, lon_offset: i64, elements: &mut Vec<Element>) -> Result<(), anyhow::Error> {
         for node in node_group {
             let id = node.id;
             let coordinate = osm::model::coordinate::Coordinate::new(
@@ -186,14 +187,9 @@ impl OsmData {
             );
 
             let (timestamp, changeset, uid, user, visible, version) =
-                Self::read_info(string_table, date_granularity, &node.info);
+                Self::read_info(string_table, date_granularity, &node.info)?;
 
-            let mut tags = Vec::<osm::model::tag::Tag>::new();
-            for i in 0..node.keys.len() {
-                let k = string_table[node.keys[i] as usize].clone();
-                let v = string_table[node.vals[i] as usize].clone();
-                tags.push(osm::model::tag::Tag::new(k, v));
-            }
+            let tags = Self::read_tags(string_table, &node.keys, &node.vals)?;
 
             let node = osm::model::node::Node::new(
                 id,
@@ -208,9 +204,28 @@ impl OsmData {
             );
             elements.push(Element::Node { node });
         }
+        Ok(())
+    }
+
+    fn string(string_table: &[String], index: usize) -> Result<String, anyhow::Error> {
+        string_table.get(index).cloned().ok_or_else(|| anyhow!("string {index} is not in the string table"))
     }
 
-    fn read_info(string_table: &[String], date_granularity: i32, info_opt: &Option<osmpbf::Info>) -> (i64, i64, i32, String, bool, i32) {
+    fn value<T: Copy>(values: &[T], index: usize) -> Result<T, anyhow::Error> {
+        values.get(index).copied().ok_or_else(|| anyhow!("value {index} is missing in a block"))
+    }
+
+    fn read_tags(string_table: &[String], keys: &[u32], vals: &[u32]) -> Result<Vec<osm::model::tag::Tag>, anyhow::Error> {
+        let mut tags = Vec::<osm::model::tag::Tag>::new();
+        for (i, key) in keys.iter().enumerate() {
+            let k = Self::string(string_table, *key as usize)?;
+            let v = Self::string(string_table, Self::value(vals, i)? as usize)?;
+            tags.push(osm::model::tag::Tag::new(k, v));
+        }
+        Ok(tags)
+    }
+
+    fn read_info(string_table: &[String], date_granularity: i32, info_opt: &Option<osmpbf::Info>) -> Result<(i64, i64, i32, String, bool, i32), anyhow::Error> {
         let mut timestamp = -1_i64;
         let mut changeset = -1_i64;
         let mut uid = -1_i32;
@@ -225,18 +240,18 @@ impl OsmData {
             uid = info.uid.unwrap_or(-1);
             user_sid = info.user_sid.unwrap_or(0) as usize;
             visible = info.visible.unwrap_or(true);
-            user = string_table[user_sid].clone();
+            user = Self::string(string_table, user_sid)?;
             version = info.version();
         }
-        (timestamp, changeset, uid, user, visible, version)
+        Ok((timestamp, changeset, uid, user, visible, version))
     }
 
 
-    fn read_ways(way_group: &Vec<osmpbf::Way>, string_table: &[String], _granularity: i64, date_granularity: i32, elements: &mut Vec<Element>) {
+    fn read_ways(way_group: &Vec<osmpbf::Way>, string_table: &[String], _granularity: i64, date_granularity: i32, elements: &mut Vec<Element>) -> Result<(), anyhow::Error> {
         for way in way_group {
             let id = way.id;
             let (timestamp, changeset, uid, user, visible, version) =
-                Self::read_info(string_table, date_granularity, &way.info);
+                Self::read_info(string_table, date_granularity, &way.info)?;
 
             let mut refs = Vec::<i64>::new();
             let mut last_ref = 0_i64;
@@ -245,12 +260,7 @@ impl OsmData {
                 refs.push(last_ref);
             }
 
-            let mut tags = Vec::<osm::model::tag::Tag>::new();
-            for i in 0..way.keys.len() {
-                let k = string_table[way.keys[i] as usize].clone();
-                let v = string_table[way.vals[i] as usize].clone();
-                tags.push(osm::model::tag::Tag::new(k, v));
-            }
+            let tags = Self::read_tags(string_table, &way.keys, &way.vals)?;
 
             let way = osm::model::way::Way::new(
                 id,
@@ -265,21 +275,22 @@ impl OsmData {
             );
             elements.push(Element::Way { way });
         }
+        Ok(())
     }
 
-    fn read_relations(relation_group: &Vec<osmpbf::Relation>, string_table: &[String], _granularity: i64, date_granularity: i32, elements: &mut Vec<Element>) {
+    fn read_relations(relation_group: &Vec<osmpbf::Relation>, string_table: &[String], _granularity: i64, date_granularity: i32, elements: &mut Vec<Element>) -> Result<(), anyhow::Error> {
         for relation in relation_group {
             let id = relation.id;
             let (timestamp, changeset, uid, user, visible, version) =
-                Self::read_info(string_table, date_granularity, &relation.info);
+                Self::read_info(string_table, date_granularity, &relation.info)?;
 
             let mut members = Vec::<osm::model::relation::Member>::new();
             let mut last_memid = 0_i64;
             for i in 0..relation.memids.len() {
                 last_memid += relation.memids[i];
-                let role = string_table[relation.roles_sid[i] as usize].clone();
+                let role = Self::string(string_table, Self::value(&relation.roles_sid, i)? as usize)?;
                 let member = osm::model::relation::MemberData::new(last_memid, role);
-                if let Ok(member_type) = osmpbf::relation::MemberType::try_from(relation.types[i]) {
+                if let Ok(member_type) = osmpbf::relation::MemberType::try_from(Self::value(&relation.types, i)?) {
                     match member_type {
                         osmpbf::relation::MemberType::Node => {
                             members.push(osm::model::relation::Member::Node { member });
@@ -292,16 +303,11 @@ impl OsmData {
                         }
                     }
                 } else {
-                    panic!("Non existing relation member type: {}", relation.types[i]);
+                    return Err(anyhow!("Non existing relation member type: {}", relation.types[i]));
                 }
             }
 
-            let mut tags = Vec::<osm::model::tag::Tag>::new();
-            for i in 0..relation.keys.len() {
-                let k = string_table[relation.keys[i] as usize].clone();
-                let v = string_table[relation.vals[i] as usize].clone();
-                tags.push(osm::model::tag::Tag::new(k, v));
-            }
+            let tags = Self::read_tags(string_table, &relation.keys, &relation.vals)?;
 
             let relation = osm::model::relation::Relation::new(
                 id,
@@ -316,11 +322,14 @@ impl OsmData {
             );
             elements.push(Element::Relation { relation });
         }
+        Ok(())
     }
 
-    fn read_changesets(changeset_group: &[osmpbf::ChangeSet], _string_table: &[String], _granularity: i64, _date_granularity: i32, _lat_offset: i64, _lon_offset: i64, _elements: &mut [Element]) {
-        if let Some(_changeset) = changeset_group.iter().next() {
-            panic!("According to documentation changesets are not used");
+    fn read_changesets(changeset_group: &[osmpbf::ChangeSet]) -> Result<(), anyhow::Error> {
+        if changeset_group.is_empty() {
+            Ok(())
+        } else {
+            Err(anyhow!("According to documentation changesets are not used"))
         }
     }
 
-- 
2.43.0


From f17563d4d052c8c0aaef8125c54c9365a05e7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 11/24] fix: detect elements that sort before the flushed ones
 and report them from close

---
 src/osm/pbf/parallel_writer.rs | 45 ++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..a0d856c 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(last_element(&elements));
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(last_element(&elements));
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -106,17 +106,24 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
-    if !element.is_sentinel() {
-        assert!(
-            compare_to_current_min_element(element).is_ge(),
-            "Element order, required by OSM PBF definition is lost. \
+fn assert_order(element: &Element) -> Result<(), Error> {
+    if !element.is_sentinel() && compare_to_current_min_element(element).is_lt() {
+        return Err(
+            anyhow!(
+                "Element order, required by OSM PBF definition is lost. \
                     Possible cause is that the length of the ordering buffer ({}) is too short \
                     to for compensate for the loss of order caused by concurrent processing. \
                     Recommended: reader_tasks * 8000 * n",
-            element_ordering_buffer_size()
+                element_ordering_buffer_size()
+            )
         );
     }
+    Ok(())
+}
+
+/// The element that everything still to be written has to follow
+fn last_element(elements: &[Element]) -> Option<&Element> {
+    elements.iter().rev().find(|e| !e.is_sentinel())
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -159,13 +166,13 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
-            assert_order(element_guard.as_ref().unwrap());
+            assert_order(element_guard.as_ref().unwrap())?;
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -186,14 +193,14 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
-                assert_order(&element);
+                assert_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -388,11 +395,11 @@ impl ParallelWriter {
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
         self.flush_element_ordering();
-        Self::shutdown(self.element_ordering_pool.clone())?;
-        Self::shutdown(self.encoding_pool.clone())?;
+        let ordering_result = Self::shutdown(self.element_ordering_pool.clone());
+        let encoding_result = Self::shutdown(self.encoding_pool.clone());
         self.flush_writing();
-        Self::shutdown(self.writing_pool.clone())?;
-        Ok(())
+        let writing_result = Self::shutdown(self.writing_pool.clone());
+        ordering_result.and(encoding_result).and(writing_result)
     }
 
     fn flush_element_ordering(&self) {
@@ -411,6 +418,8 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        // errors are returned by join
+                        .with_join_error_handler(|_, _| {})
                         .build()?
                 )
             )
-- 
2.43.0


From e33b5a6ac7856c0febeb8a6c86bd35bd9fd29193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 12/24] fix: report failures to create or write the output of
 the parallel writer

---
 src/osm/pbf/parallel_writer.rs | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a0d856c..c52bd49 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -281,17 +281,18 @@ impl Command for WriteBlobCommand {
                             Some((header, body)) => {
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut()
+                                            .ok_or_else(|| anyhow!("the header was not written"))?
+                                            .write_blob(header, body)
                                     }
-                                );
+                                )?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
-
-        Ok(())
+        )
     }
 }
 
@@ -356,22 +357,34 @@ impl ParallelWriter {
         let path = self.path.clone();
         let file_info = self.file_info.clone();
         let compression_type = self.compression_type.clone();
+        let result = Arc::new(Mutex::new(Ok(())));
+        let result_clone = result.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
                 PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
-                        let mut w = Writer::from_file_info(
+                        let created = Writer::from_file_info(
                             path.clone(),
                             file_info.clone(),
                             compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
-                        writer.replace(Some(w));
+                        ).and_then(|mut w| {
+                            w.write_header()?;
+                            Ok(w)
+                        });
+                        match created {
+                            Ok(w) => {
+                                writer.replace(Some(w));
+                            }
+                            Err(e) => {
+                                *result_clone.lock().unwrap() = Err(e);
+                            }
+                        }
                     }
                 })
             })
         );
-        Ok(())
+        let mut result_guard = result.lock().unwrap();
+        std::mem::replace(&mut *result_guard, Ok(()))
     }
 
     /// Write an [Element]
-- 
2.43.0


From 8b039e8a6343307d6e536adb505e5ec1edc40278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 13/24] fix: return errors of the reading threads instead of
 panicking in join

---
 src/osm/pbf/bounding_box_calculator.rs | 2 ++
 src/osm/pbf/reader.rs                  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 8d88835..6728fd9 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -24,6 +24,8 @@ impl BoundingBoxCalculator {
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
+            // errors are returned by join
+            .with_join_error_handler(|_, _| {})
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .build()?;
 
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index e62b274..678c762 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -187,6 +187,8 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            // errors are returned by join
+            .with_join_error_handler(|_, _| {})
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From 323c677967f970d39f07b02e3b1a4bc0221e8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 14/24] fix: bounding box of mixed blocks and of files without
 nodes

---
 src/osm/pbf/bounding_box_calculator.rs   | 3 ++-
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 src/osm/pbf/osm_data.rs                  | 6 +++---
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 6728fd9..24ea38d 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -58,6 +59,6 @@ impl BoundingBoxCalculator {
         tp.join()?;
         blob_result?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take().ok_or_else(|| anyhow!("{} contains no nodes", self.path.display()))
     }
 }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..b66c254 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -39,9 +39,7 @@ impl Command for CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index ba4f8c7..90df6e7 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => {}
+                Element::Relation { .. } => {}
+                Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From d129533986e4b2ea01bef531f1f7be57e306acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 15/24] fix: refuse bounding box text with more than four
 numbers

---
 src/osm/model/bounding_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/model/bounding_box.rs b/src/osm/model/bounding_box.rs
index 782fc41..a1d0c12 100644
--- a/src/osm/model/bounding_box.rs
+++ b/src/osm/model/bounding_box.rs
@@ -94,7 +94,7 @@ impl FromStr for BoundingBox {
         let parts: Vec<&str> = s.split(',')
             .map(|s| s.trim())
             .collect();
-        if parts.len() < 4 {
+        if parts.len() != 4 {
             Err(e)
         } else {
             let left = f64::from_str(parts[0])?;
-- 
2.43.0


From cf9c2435af246e2b6b4de0aaf77603c544768b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 16/24] fix: read the members of a relation in the order of
 their sequence numbers

---
 src/osm/apidb_dump/read/table_pkey.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..da51a1c 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -48,11 +48,9 @@ impl TablePkey {
             }
             "public.relation_members" => {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
+                // sorted by sequence_id to restore the order of members
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
-                key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
-                key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
-                key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
                 key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
-- 
2.43.0


From caecdf4a53baab01b65ad092b7c7138a64ba3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 17/24] fix: escape and unescape texts as PostgreSQL COPY does

---
 src/osm/apidb_dump/read/table_reader.rs | 17 ++++---
 src/osm/apidb_dump/sql.rs               | 64 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      | 17 ++++---
 3 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..f2fe234 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_sql_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape_sql_text(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_sql_text(columns[*k]),
+                            unescape_sql_text(columns[*v]),
                         )
                     }
                 )
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..e1f4dc6 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -17,6 +17,70 @@ pub(crate) fn parse_sql_bool(s: &str) -> Result<bool, anyhow::Error> {
     }
 }
 
+/// Escape a value as required by the text format of PostgreSQL COPY
+pub(crate) fn escape_sql_text(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { escaped.push_str("\\\\") }
+            '\x08' => { escaped.push_str("\\b") }
+            '\x0c' => { escaped.push_str("\\f") }
+            '\n' => { escaped.push_str("\\n") }
+            '\r' => { escaped.push_str("\\r") }
+            '\t' => { escaped.push_str("\\t") }
+            '\x0b' => { escaped.push_str("\\v") }
+            _ => { escaped.push(c) }
+        }
+    }
+    escaped
+}
+
+/// Restore a value from the text format of PostgreSQL COPY
+pub(crate) fn unescape_sql_text(s: &str) -> String {
+    let bytes = s.as_bytes();
+    let mut unescaped = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        if bytes[i] != b'\\' || i + 1 == bytes.len() {
+            unescaped.push(bytes[i]);
+            i += 1;
+            continue;
+        }
+        let c = bytes[i + 1];
+        i += 2;
+        match c {
+            b'b' => { unescaped.push(0x08) }
+            b'f' => { unescaped.push(0x0c) }
+            b'n' => { unescaped.push(b'\n') }
+            b'r' => { unescaped.push(b'\r') }
+            b't' => { unescaped.push(b'\t') }
+            b'v' => { unescaped.push(0x0b) }
+            b'0'..=b'7' => {
+                // up to three octal digits
+                let mut value = (c - b'0') as u32;
+                let end = (i + 2).min(bytes.len());
+                while i < end && matches!(bytes[i], b'0'..=b'7') {
+                    value = value * 8 + (bytes[i] - b'0') as u32;
+                    i += 1;
+                }
+                unescaped.push(value as u8)
+            }
+            b'x' if i < bytes.len() && bytes[i].is_ascii_hexdigit() => {
+                // up to two hexadecimal digits
+                let mut value = 0;
+                let end = (i + 2).min(bytes.len());
+                while i < end && bytes[i].is_ascii_hexdigit() {
+                    value = value * 16 + (bytes[i] as char).to_digit(16).unwrap_or(0);
+                    i += 1;
+                }
+                unescaped.push(value as u8)
+            }
+            _ => { unescaped.push(c) }
+        }
+    }
+    String::from_utf8_lossy(&unescaped).into_owned()
+}
+
 pub(crate) fn to_sql_bool(v: bool) -> char {
     match v {
         true => { 't' }
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..936a7da 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape_sql_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
@@ -121,8 +120,8 @@ impl Writer {
         for tag in tags {
             // public.node_tags (node_id, version, k, v)
             // template context: 4259.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let node_tag_line = format!("{}\t{}\t{}\t{}\n",
                                         node.id(),
                                         node.version(),
@@ -196,8 +195,8 @@ impl Writer {
         for tag in way.take_tags() {
             // public.current_way_tags (way_id, k, v)
             // template context: 4235.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let current_way_tag_line = format!("{}\t{}\t{}\n",
                                                way.id(),
                                                escaped_key,
@@ -277,7 +276,7 @@ impl Writer {
 
             // public.current_relation_members (relation_id, member_type, member_id, member_role, sequence_id)
             // template context: 4230.dat
-            let escaped_role = escape(member_role);
+            let escaped_role = escape_sql_text(member_role);
             let current_relation_member_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                                        relation.id(),
                                                        member_type,
@@ -314,8 +313,8 @@ impl Writer {
         for tag in relation.take_tags() {
             // public.current_relation_tags (relation_id, k, v)
             // template context: 4231.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_sql_text(tag.k());
+            let escaped_tag = escape_sql_text(tag.v());
             let current_relation_tag_line = format!("{}\t{}\t{}\n",
                                                     relation.id(),
                                                     escaped_key,
-- 
2.43.0


From 3b80c33d3eec9c917d4068203f09e0abd280b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 18/24] fix: escape the names of users in the dump

---
 src/osm/apidb_dump/read/table_reader.rs | 8 ++++----
 src/osm/apidb_dump/write/writer.rs      | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index f2fe234..ec29374 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -426,13 +426,13 @@ impl TableReader {
                 Some(
                     TableRecord::User {
                         user_record: UserRecord::new(
-                            columns[*email].to_string(),
+                            unescape_sql_text(columns[*email]),
                             i64::from_str(columns[*id]).unwrap(),
-                            columns[*pass_crypt].to_string(),
+                            unescape_sql_text(columns[*pass_crypt]),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape_sql_text(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape_sql_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 936a7da..471ad41 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -423,6 +423,7 @@ impl Writer {
             let (user_id, user_name) = element?;
 
             let t = chrono::offset::Utc::now();
+            let user_name = escape_sql_text(&user_name);
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
             let line = format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
                                osm_admin_user,
-- 
2.43.0


From f26302bcb041053a57f35007801e447bc992b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 19/24] fix: report timestamps a dump cannot hold instead of
 panicking

---
 src/osm/apidb_dump/sql.rs          |  7 ++++---
 src/osm/apidb_dump/write/writer.rs | 12 ++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index e1f4dc6..f21df78 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -99,10 +99,11 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
-pub(crate) fn to_sql_time_millis(t: i64) -> String {
-    let datetime = DateTime::from_timestamp_millis(t).unwrap();
+pub(crate) fn to_sql_time_millis(t: i64) -> Result<String, anyhow::Error> {
+    let datetime = DateTime::from_timestamp_millis(t)
+        .ok_or_else(|| anyhow!("Timestamp out of range: {}", t))?;
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
-    sql_time.replace('T', " ").replace('Z', "")
+    Ok(sql_time.replace('T', " ").replace('Z', ""))
 }
 
 pub(crate) fn to_sql_time_micros(t: i64) -> String {
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 471ad41..3ad756a 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -87,7 +87,7 @@ impl Writer {
                                         node.coordinate().lon7(),
                                         node.changeset(),
                                         to_sql_bool(node.visible()),
-                                        to_sql_time_millis(node.timestamp()),
+                                        to_sql_time_millis(node.timestamp())?,
                                         calculate_tile(node.coordinate().lat(), node.coordinate().lon()),
                                         node.version()
         );
@@ -108,7 +108,7 @@ impl Writer {
                                 node.coordinate().lon7(),
                                 node.changeset(),
                                 to_sql_bool(node.visible()),
-                                to_sql_time_millis(node.timestamp()),
+                                to_sql_time_millis(node.timestamp())?,
                                 calculate_tile(node.coordinate().lat(), node.coordinate().lon()),
                                 node.version()
         );
@@ -230,7 +230,7 @@ impl Writer {
         let current_way_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                        way.id(),
                                        way.changeset(),
-                                       to_sql_time_millis(way.timestamp()),
+                                       to_sql_time_millis(way.timestamp())?,
                                        to_sql_bool(way.visible()),
                                        way.version(),
         );
@@ -248,7 +248,7 @@ impl Writer {
         let way_line = format!("{}\t{}\t{}\t{}\t{}\t\\N\n",
                                way.id(),
                                way.changeset(),
-                               to_sql_time_millis(way.timestamp()),
+                               to_sql_time_millis(way.timestamp())?,
                                way.version(),
                                to_sql_bool(way.visible()),
         );
@@ -349,7 +349,7 @@ impl Writer {
         let current_relation_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                             relation.id(),
                                             relation.changeset(),
-                                            to_sql_time_millis(relation.timestamp()),
+                                            to_sql_time_millis(relation.timestamp())?,
                                             to_sql_bool(relation.visible()),
                                             relation.version(),
         );
@@ -367,7 +367,7 @@ impl Writer {
         let relation_line = format!("{}\t{}\t{}\t{}\t{}\t\\N\n",
                                     relation.id(),
                                     relation.changeset(),
-                                    to_sql_time_millis(relation.timestamp()),
+                                    to_sql_time_millis(relation.timestamp())?,
                                     relation.version(),
                                     to_sql_bool(relation.visible()),
         );
-- 
2.43.0


From 71733416904fe4c22a86ff614cd64241bea38e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 20/24] fix: accept changesets without a bounding box and users
 without a home zoom

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ec29374..fc2c9ab 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape_sql_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From 177e46926aedc6a1decd9bae0d9306c33956caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 21/24] fix: return an error when a table file of a dump cannot
 be created

---
 .../apidb_dump/write/table_data_writers.rs    | 106 +++++++++---------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 355b4bd..74df965 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -76,59 +76,59 @@ impl TableDataWriters {
         let changeset_user_index_buffer = HashMap::<i64, i64>::new();
 
         Ok(TableDataWriters {
-            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path).unwrap(),
-            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path).unwrap(),
-            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path).unwrap(),
-            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path).unwrap(),
-            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path).unwrap(),
-            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path).unwrap(),
-            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path).unwrap(),
-            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path).unwrap(),
-            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path).unwrap(),
-            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path).unwrap(),
-            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path).unwrap(),
-            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path).unwrap(),
-            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path).unwrap(),
-            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path).unwrap(),
-            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path).unwrap(),
-            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path).unwrap(),
-            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path).unwrap(),
-            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path).unwrap(),
-            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path).unwrap(),
-            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path).unwrap(),
-            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path).unwrap(),
-            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path).unwrap(),
-            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path).unwrap(),
-            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path).unwrap(),
-            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path).unwrap(),
-            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path).unwrap(),
-            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path).unwrap(),
-            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path).unwrap(),
-            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path).unwrap(),
-            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path).unwrap(),
-            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path).unwrap(),
-            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path).unwrap(),
-            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path).unwrap(),
-            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path).unwrap(),
-            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path).unwrap(),
-            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path).unwrap(),
-            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path).unwrap(),
-            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path).unwrap(),
-            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path).unwrap(),
-            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path).unwrap(),
-            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path).unwrap(),
-            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path).unwrap(),
-            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path).unwrap(),
-            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path).unwrap(),
-            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path).unwrap(),
-            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path).unwrap(),
-            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path).unwrap(),
-            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path).unwrap(),
-            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path).unwrap(),
-            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path).unwrap(),
-            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path).unwrap(),
-            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path).unwrap(),
-            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path).unwrap(),
+            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path)?,
+            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path)?,
+            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path)?,
+            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path)?,
+            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path)?,
+            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path)?,
+            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path)?,
+            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path)?,
+            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path)?,
+            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path)?,
+            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path)?,
+            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path)?,
+            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path)?,
+            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path)?,
+            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path)?,
+            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path)?,
+            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path)?,
+            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path)?,
+            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path)?,
+            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path)?,
+            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path)?,
+            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path)?,
+            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path)?,
+            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path)?,
+            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path)?,
+            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path)?,
+            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path)?,
+            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path)?,
+            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path)?,
+            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path)?,
+            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path)?,
+            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path)?,
+            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path)?,
+            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path)?,
+            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path)?,
+            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path)?,
+            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path)?,
+            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path)?,
+            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path)?,
+            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path)?,
+            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path)?,
+            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path)?,
+            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path)?,
+            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path)?,
+            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path)?,
+            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path)?,
+            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path)?,
+            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path)?,
+            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path)?,
+            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path)?,
+            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path)?,
+            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path)?,
+            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path)?,
 
             user_index,
             changeset_user_index,
-- 
2.43.0


From 0c97e4fa882c38ddabc6181d0231db7939ad843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 22/24] fix: a failing read no longer passes for the end of a
 table

---
 src/osm/apidb_dump/read/table_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index fc2c9ab..b463b6a 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -518,8 +518,9 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                // ending here would pass for the end of the table
+                panic!("failed to read the table after line {}: {}", self.line_number, e)
             }
         }
     }
-- 
2.43.0


From 87f1f35079f5accc1390aa26caa3c98eb24023b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:16 +0000
Subject: [PATCH 23/24] fix: report failing user and changeset indexes when a
 dump is closed

---
 src/osm/apidb_dump/write/table_data_writers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 74df965..7faa7ba 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -138,14 +138,14 @@ impl TableDataWriters {
     }
 
     pub(crate) fn flush_buffers(&mut self) -> Result<(), anyhow::Error> {
-        self.user_index_buffer.iter().for_each(|(user_id, user)| {
-            self.user_index.insert(*user_id, user.to_string()).unwrap();
-        });
+        for (user_id, user) in &self.user_index_buffer {
+            self.user_index.insert(*user_id, user.to_string())?;
+        }
         self.user_index_buffer.clear();
 
-        self.changeset_user_index_buffer.iter().for_each(|(changeset_id, user_id)| {
-            self.changeset_user_index.insert(*changeset_id, *user_id).unwrap();
-        });
+        for (changeset_id, user_id) in &self.changeset_user_index_buffer {
+            self.changeset_user_index.insert(*changeset_id, *user_id)?;
+        }
         self.changeset_user_index_buffer.clear();
         Ok(())
     }
-- 
2.43.0


From 4e8c1d65a9221a86b74e53a3150dbfe3d939f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 24/24] fix: Writer::write_elements keeps the order of elements
 and the size of blocks

---
 src/osm/pbf/writer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 9feb2b0..0e582ba 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,16 +166,24 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                self.write_elements(elements)?;
+                self.write_block(elements)?;
             }
         }
         Ok(())
     }
+
     /// Write elements
     ///
     /// Elements must be ordered, that is each element must be less then or equal to the following
-    /// element
+    /// element. Equivalent to calling [Writer::write_element] with each of them.
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        for element in elements {
+            self.write_element(element)?;
+        }
+        Ok(())
+    }
+
+    fn write_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
@@ -194,7 +202,7 @@ impl Writer {
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
         let elements = self.element_accumulator.elements();
         if !elements.is_empty() {
-            self.write_elements(elements)?;
+            self.write_block(elements)?;
         }
         Ok(())
     }
-- 
2.43.0

