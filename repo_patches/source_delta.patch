From 654969a84b545b9bdf01c9e8d04a5a83352e7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 01/30] fix: a failing sequential read or an over-long skip
 must not overflow the cursor

---
 src/reader.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e392b0f..dc68aee 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -343,7 +343,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn skip(&self, len: usize) {
-        self.pos.set(self.pos.get() + len);
+        self.pos.set(self.pos.get().saturating_add(len));
     }
     #[inline]
     pub fn save_pos(&self) {
@@ -356,72 +356,72 @@ impl<'a> WzSliceReader<'a> {
     #[inline]
     pub fn read_u8(&self) -> Result<u8> {
         let pos = self.pos.get();
-        let res = self.read_u8_at(pos);
+        let res = self.read_u8_at(pos)?;
         self.pos.set(pos + 1);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_u16(&self) -> Result<u16> {
         let pos = self.pos.get();
-        let res = self.read_u16_at(pos);
+        let res = self.read_u16_at(pos)?;
         self.pos.set(pos + 2);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_u32(&self) -> Result<u32> {
         let pos = self.pos.get();
-        let res = self.read_u32_at(pos);
+        let res = self.read_u32_at(pos)?;
         self.pos.set(pos + 4);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_u64(&self) -> Result<u64> {
         let pos = self.pos.get();
-        let res = self.read_u64_at(pos);
+        let res = self.read_u64_at(pos)?;
         self.pos.set(pos + 8);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_i8(&self) -> Result<i8> {
         let pos = self.pos.get();
-        let res = self.read_i8_at(pos);
+        let res = self.read_i8_at(pos)?;
         self.pos.set(pos + 1);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_i16(&self) -> Result<i16> {
         let pos = self.pos.get();
-        let res = self.read_i16_at(pos);
+        let res = self.read_i16_at(pos)?;
         self.pos.set(pos + 2);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_i32(&self) -> Result<i32> {
         let pos = self.pos.get();
-        let res = self.read_i32_at(pos);
+        let res = self.read_i32_at(pos)?;
         self.pos.set(pos + 4);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_i64(&self) -> Result<i64> {
         let pos = self.pos.get();
-        let res = self.read_i64_at(pos);
+        let res = self.read_i64_at(pos)?;
         self.pos.set(pos + 8);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_float(&self) -> Result<f32> {
         let pos = self.pos.get();
-        let res = self.read_float_at(pos);
+        let res = self.read_float_at(pos)?;
         self.pos.set(pos + 4);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_double(&self) -> Result<f64> {
         let pos = self.pos.get();
-        let res = self.read_double_at(pos);
+        let res = self.read_double_at(pos)?;
         self.pos.set(pos + 8);
-        res
+        Ok(res)
     }
     #[inline]
     pub fn read_unicode_str_len(&self, sl: i8) -> Result<i32> {
-- 
2.43.0


From 261b8c9bbb358e2fe8e6ad351805165a645f64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 02/30] fix: malformed string lengths and references are errors
 instead of overflow panics

---
 src/reader.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index dc68aee..a9e4017 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -98,10 +98,10 @@ pub trait Reader {
         }
     }
     fn resolve_unicode_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
         let mut strvec = Vec::with_capacity(length / 2);
 
-        for (i, chunk) in decrypted.chunks(2).enumerate() {
+        for (i, chunk) in decrypted.chunks_exact(2).enumerate() {
             let c = u16::from_le_bytes([chunk[0], chunk[1]]);
             strvec.push(resolve_unicode_char(c, i as i32));
         }
@@ -109,7 +109,7 @@ pub trait Reader {
         Ok(strvec)
     }
     fn resolve_ascii_raw(&self, offset: usize, length: usize) -> Result<Vec<u8>> {
-        let mut decrypted = self.get_decrypt_slice(offset..(offset + length))?;
+        let mut decrypted = self.get_decrypt_slice(offset..offset.saturating_add(length))?;
 
         decrypted.iter_mut().enumerate().for_each(|(i, byte)| {
             *byte = resolve_ascii_char(*byte, i as i32);
@@ -118,10 +118,10 @@ pub trait Reader {
         Ok(decrypted)
     }
     fn resolve_pkg2_dir_raw(&self, offset: usize, length: usize) -> Result<Vec<u16>> {
-        let decrypted = self.get_pkg2_decrypt_slice(offset..(offset + length))?;
+        let decrypted = self.get_pkg2_decrypt_slice(offset..offset.saturating_add(length))?;
 
         Ok(decrypted
-            .chunks(2)
+            .chunks_exact(2)
             .map(|c| u16::from_le_bytes([c[0], c[1]]))
             .collect())
     }
@@ -439,6 +439,12 @@ impl<'a> WzSliceReader<'a> {
             Ok((-sl).into())
         }
     }
+    /// the explicit length of a string, it can't be negative
+    #[inline]
+    fn read_explicit_str_len(&self) -> Result<u32> {
+        let length = self.read_i32()?;
+        u32::try_from(length).map_err(|_| Error::OutOfBounds(length as usize, self.buf.len()))
+    }
     pub fn read_unicode_string(&self, sl: i8) -> Result<String> {
         let len = self.read_unicode_str_len(sl)?;
 
@@ -446,7 +452,7 @@ impl<'a> WzSliceReader<'a> {
             return Ok(String::new());
         }
 
-        let unicode_u8_len = (len * 2) as usize;
+        let unicode_u8_len = (len as usize).saturating_mul(2);
 
         let string =
             self.resolve_wz_string_meta(&WzStringType::Unicode, self.pos.get(), unicode_u8_len)?;
@@ -486,7 +492,7 @@ impl<'a> WzSliceReader<'a> {
             WzStringType::Empty => Ok(WzStringMeta::empty()),
             WzStringType::Unicode => {
                 if small_len == i8::MAX {
-                    let length = self.read_i32()? as u32 * 2;
+                    let length = self.read_explicit_str_len()? * 2;
                     /* remember skip char reading */
                     let meta = WzStringMeta::new_unicode(self.pos.get(), length);
                     self.skip(length as usize);
@@ -500,8 +506,8 @@ impl<'a> WzSliceReader<'a> {
             }
             WzStringType::Ascii => {
                 if small_len == i8::MIN {
-                    let length = self.read_i32()?;
-                    let meta = WzStringMeta::new_ascii(self.pos.get(), length as u32);
+                    let length = self.read_explicit_str_len()?;
+                    let meta = WzStringMeta::new_ascii(self.pos.get(), length);
                     self.skip(length as usize);
                     Ok(meta)
                 } else {
@@ -522,7 +528,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -534,7 +540,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(WzStringMeta::empty())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let meta = WzStringMeta::new_pkg2_dir(self.pos.get(), length as u32);
             self.skip(length);
             Ok(meta)
@@ -559,7 +565,7 @@ impl<'a> WzSliceReader<'a> {
         if len >= 0 {
             Ok(String::new())
         } else {
-            let length = (-len) as usize * 2;
+            let length = len.unsigned_abs() as usize * 2;
             let offset = self.pos.get();
             let bytes = self.resolve_pkg2_dir_raw(offset, length)?;
 
@@ -586,7 +592,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_at_offset(offset + append_offset as usize)
+                self.read_wz_string_at_offset(offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(String::new()),
         }
@@ -599,7 +605,7 @@ impl<'a> WzSliceReader<'a> {
             0 | 0x73 => self.read_wz_string_meta(),
             1 | 0x1B => {
                 let append_offset = self.read_i32()?;
-                self.read_wz_string_meta_at(wz_img_offset + append_offset as usize)
+                self.read_wz_string_meta_at(wz_img_offset.wrapping_add(append_offset as usize))
             }
             _ => Ok(WzStringMeta::empty()),
         }
-- 
2.43.0


From d965ef7e65ae07c32f0c4b2d3b13c90e5fc16e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 03/30] fix: the buffer string functions return an error for
 text outside the buffer

---
 src/reader.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a9e4017..1c4574a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -843,7 +843,11 @@ pub fn read_wz_string_block(buf: &[u8], offset: usize) -> Result<String> {
         0 | 0x73 => read_wz_string(&buf[1..]),
         1 | 0x1B => {
             let append_offset = read_i32_at(buf, 1)? as usize;
-            read_wz_string(&buf[append_offset + offset..])
+            let start = offset.wrapping_add(append_offset);
+            read_wz_string(
+                buf.get(start..)
+                    .ok_or(Error::OutOfBounds(start, buf.len()))?,
+            )
         }
         _ => Ok(String::new()),
     }
@@ -890,9 +894,12 @@ pub fn read_unicode_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u16> = (0..len)
-        .map(|i| resolve_unicode_char(read_u16_at(buf, (i * 2 + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len)
+        .map(|i| {
+            let pos = i as usize * 2 + offset as usize;
+            Ok(resolve_unicode_char(read_u16_at(buf, pos)?, i))
+        })
+        .collect::<Result<Vec<u16>>>()?;
 
     Ok(String::from_utf16_lossy(&strvec).to_string())
 }
@@ -912,9 +919,12 @@ pub fn read_ascii_string(buf: &[u8], sl: i8) -> Result<String> {
         return Ok(String::new());
     }
 
-    let strvec: Vec<u8> = (0..len)
-        .map(|i| resolve_ascii_char(read_u8_at(buf, (i + offset) as usize).unwrap(), i))
-        .collect();
+    let strvec = (0..len)
+        .map(|i| {
+            let pos = i as usize + offset as usize;
+            Ok(resolve_ascii_char(read_u8_at(buf, pos)?, i))
+        })
+        .collect::<Result<Vec<u8>>>()?;
 
     Ok(String::from_utf8_lossy(&strvec).to_string())
 }
-- 
2.43.0


From a88baf7f276b29db32da8bd30e8613a18fc959a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 04/30] fix: malformed directory entries are errors instead of
 panics

---
 src/directory.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/directory.rs b/src/directory.rs
index 2bb258a..7de2199 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -125,9 +125,14 @@ impl WzDirectory {
             .entries
             .iter()
             .map(|entry| {
-                entry.into_wz_node_tuple(parent, self.hash, &self.profile, Arc::clone(&self.reader))
+                entry.try_into_wz_node_tuple(
+                    parent,
+                    self.hash,
+                    &self.profile,
+                    Arc::clone(&self.reader),
+                )
             })
-            .collect();
+            .collect::<Result<_, Error>>()?;
 
         // if there has any directory, parse it since it's probably cheep
         for (_, node) in nodes.iter() {
@@ -345,7 +350,7 @@ impl WzDirectoryEntry {
             WzDirectoryType::MetaAtOffset => {
                 let str_offset = reader.read_i32()?;
 
-                let offset = reader.header.fstart + str_offset as usize;
+                let offset = reader.header.fstart.wrapping_add(str_offset as usize);
 
                 entry.dir_type = reader.read_u8_at(offset)?.into();
                 entry.name = reader.read_wz_string_meta_at(offset + 1)?;
@@ -412,7 +417,11 @@ impl WzDirectoryEntry {
     }
 
     pub fn verify(&self, reader: &WzSliceReader) -> Result<(), Error> {
-        if !reader.is_valid_pos(self.offset + self.size) {
+        let is_valid_end = self
+            .offset
+            .checked_add(self.size)
+            .is_some_and(|end| reader.is_valid_pos(end));
+        if !is_valid_end {
             return Err(Error::InvalidWzVersion);
         }
 
@@ -476,15 +485,4 @@ impl WzDirectoryEntry {
 
         Ok((name.clone(), node.into_lock()))
     }
-
-    pub fn into_wz_node_tuple(
-        &self,
-        parent: &WzNodeArc,
-        hash: u64,
-        profile: &WzProfile,
-        reader: Arc<WzReader>,
-    ) -> (WzNodeName, WzNodeArc) {
-        self.try_into_wz_node_tuple(parent, hash, profile, reader)
-            .unwrap()
-    }
 }
-- 
2.43.0


From bc4f66b1789154948769d1c7a0a0a8fe4cfba00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 05/30] fix: a directory entry referring to another reference
 is an error, not an orphan node

---
 src/directory.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/directory.rs b/src/directory.rs
index 7de2199..e223746 100644
--- a/src/directory.rs
+++ b/src/directory.rs
@@ -175,7 +175,11 @@ impl WzDirectory {
                 WzDirectoryType::NewUnknownType(dir_byte) => {
                     return Err(Error::UnknownWzDirectoryType(dir_byte, reader.pos.get()));
                 }
-                _ => {
+                // the referenced entry is a reference again, it has no content
+                WzDirectoryType::MetaAtOffset => {
+                    return Err(Error::UnknownWzDirectoryType(2, reader.pos.get()));
+                }
+                WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => {
                     // do nothing
                 }
             }
-- 
2.43.0


From 33146c7ddf72c642a5876e65b94112c5fc37f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 06/30] fix: malformed counts and sizes in property records are
 errors instead of panics

---
 src/util/parse_property.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 56b6994..f6e988a 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -26,6 +26,9 @@ pub enum WzPropertyParseError {
     ReaderError(#[from] reader::Error),
 }
 
+/// the entry count is not verified yet when reserving the space for entries
+const MAX_RESERVE: i32 = 0x1000;
+
 pub fn parse_property_list(
     parent: Option<&WzNodeArc>,
     org_reader: &Arc<WzReader>,
@@ -34,7 +37,7 @@ pub fn parse_property_list(
 ) -> Result<(WzNodeArcVec, Vec<WzNodeArc>), WzPropertyParseError> {
     let entry_count = reader.read_wz_int()?;
 
-    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count as usize);
+    let mut childs: WzNodeArcVec = Vec::with_capacity(entry_count.clamp(0, MAX_RESERVE) as usize);
     let mut uol_nodes: Vec<WzNodeArc> = Vec::new();
 
     for _ in 0..entry_count {
@@ -245,7 +248,7 @@ pub fn parse_more(
             let _ = reader.read_wz_int()?;
             reader.skip(2);
             /* unknown end */
-            let canvas_slice_size = (reader.read_i32()? - 1) as usize;
+            let canvas_slice_size = reader.read_i32()?.saturating_sub(1) as usize;
             reader.skip(1);
             let canvas_offset = reader.pos.get();
             let canvas_header = reader.read_u16()?;
@@ -274,7 +277,9 @@ pub fn parse_more(
 
             {
                 let mut node_write = node.write().unwrap();
-                node_write.children.reserve(entry_count as usize);
+                node_write
+                    .children
+                    .reserve(entry_count.clamp(0, MAX_RESERVE) as usize);
                 for i in 0..entry_count {
                     let name: WzNodeName = i.to_string().into();
                     let parsed_node = parse_extended_prop(
@@ -307,14 +312,15 @@ pub fn parse_more(
             let _sound_start_offset = reader.pos.get();
             let sound_size = reader.read_wz_int()? as u32;
             let sound_duration = reader.read_wz_int()? as u32;
-            let sound_offset = end_of_block - (sound_size as usize);
+            let sound_offset = end_of_block.saturating_sub(sound_size as usize);
 
             let header_offset: usize = reader.pos.get();
 
-            let header_size = sound_offset - header_offset;
+            let header = reader.get_slice_or_error(header_offset..sound_offset)?;
+            let header_size = header.len();
 
             let sound_type = get_sound_type_from_header(
-                &reader.buf[header_offset..header_offset + header_size],
+                header,
                 sound_size,
                 sound_duration,
             );
-- 
2.43.0


From 18f3d452d56885f749ed140bceb0650229d73b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 07/30] fix: a record with an unknown nested kind keeps its own
 name

---
 src/util/parse_property.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index f6e988a..ddf9381 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -120,21 +120,27 @@ pub fn parse_property_node(
             let block_size = reader.read_u32()?;
             let next_pos = reader.pos.get() + block_size as usize;
 
-            let parse_result =
-                parse_extended_prop(parent, org_reader, reader, next_pos, origin_offset, name);
+            let parse_result = parse_extended_prop(
+                parent,
+                org_reader,
+                reader,
+                next_pos,
+                origin_offset,
+                name.clone(),
+            );
 
             let node = if let Ok(node) = parse_result {
                 node
             } else if let Err(WzPropertyParseError::UnknownExtendedPropertyType(
                 extend_type,
-                name,
+                unknown_name,
                 pos,
             )) = parse_result
             {
                 // specificly make the unknown extended property doesn't throw error
                 println!(
                     "Unknown extended property type: {}, name: {}, at position: {}",
-                    extend_type, name, pos
+                    extend_type, unknown_name, pos
                 );
                 let node =
                     WzNode::new(&name, WzObjectType::Value(WzValue::Null), parent).into_lock();
-- 
2.43.0


From 1844240ecedb902c912580fb066e974a1a6076bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 08/30] fix: looking up a path inside an image enters every
 container kind and reports absent names

---
 src/util/parse_property.rs | 55 +++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index ddf9381..06c4a3d 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -434,6 +434,7 @@ pub fn get_node(
     while let Some(current_name) = current_path {
         let entry_count = reader.read_wz_int()?;
         let next_path = pathes.next();
+        let mut descended = false;
         for _ in 0..entry_count {
             let name = reader.read_wz_string_block(origin_offset)?;
             let property_type = reader.read_u8()?;
@@ -485,15 +486,55 @@ pub fn get_node(
                     }
                 }
                 9 => {
+                    let block_size = reader.read_u32()?;
+
                     if name == current_name {
-                        current_path = next_path;
-                        // skip block size
-                        reader.skip(4);
-                        reader.read_wz_string_block_meta(origin_offset)?;
+                        let end_of_block = reader.pos.get() + block_size as usize;
+                        let extend_type = reader.read_wz_string_block(origin_offset)?;
+
+                        let has_child = match extend_type.as_str() {
+                            "Property" => true,
+                            "Canvas" => {
+                                reader.skip(1);
+                                reader.read_u8()? == 1
+                            }
+                            "RawData" => reader.read_u8()? == 0x01 && reader.read_u8()? == 1,
+                            // the entries of convex don't have a name in it, need to parse it
+                            "Shape2D#Convex2D" => {
+                                let convex = parse_more(
+                                    None,
+                                    org_reader,
+                                    reader,
+                                    end_of_block,
+                                    origin_offset,
+                                    name.into(),
+                                    &extend_type,
+                                )?
+                                .1;
+
+                                let node = next_path
+                                    .and_then(|first| convex.read().unwrap().at(first))
+                                    .and_then(|first| {
+                                        pathes.try_fold(first, |node, name| {
+                                            node.read().unwrap().at(name)
+                                        })
+                                    })
+                                    .ok_or(WzPropertyParseError::NodeNotFound)?;
+                                let name = node.read().unwrap().name.clone();
+
+                                return Ok((name, node));
+                            }
+                            _ => false,
+                        };
+
+                        if !has_child {
+                            return Err(WzPropertyParseError::NodeNotFound);
+                        }
+
                         reader.skip(2);
+                        descended = true;
                         break;
                     } else {
-                        let block_size = reader.read_u32()?;
                         reader.skip(block_size as usize);
                     }
                 }
@@ -507,9 +548,11 @@ pub fn get_node(
             }
         }
 
-        if next_path.is_none() {
+        if !descended {
             break;
         }
+
+        current_path = next_path;
     }
 
     Err(WzPropertyParseError::NodeNotFound)
-- 
2.43.0


From 0e50d6290846bd6130d6724205ffb4ca70f7e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 09/30] fix: payloads that leave the file are parse errors
 instead of panics on access

---
 src/property/sound.rs      |  2 +-
 src/util/parse_property.rs |  4 ++++
 src/wz_image.rs            | 12 ++++++++----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/property/sound.rs b/src/property/sound.rs
index a488e18..4a3a50c 100644
--- a/src/property/sound.rs
+++ b/src/property/sound.rs
@@ -112,7 +112,7 @@ impl WzSound {
     }
     pub fn get_wav_header(&self) -> Vec<u8> {
         let header = self.reader.get_slice(self.get_header_range());
-        let chunk_size = (self.length + 36).to_le_bytes();
+        let chunk_size = self.length.wrapping_add(36).to_le_bytes();
         let u8_16_from_header = &header[0x34..0x34 + 16];
         let chunk2_size = self.length.to_le_bytes();
 
diff --git a/src/util/parse_property.rs b/src/util/parse_property.rs
index 06c4a3d..82f0c16 100644
--- a/src/util/parse_property.rs
+++ b/src/util/parse_property.rs
@@ -324,6 +324,7 @@ pub fn parse_more(
 
             let header = reader.get_slice_or_error(header_offset..sound_offset)?;
             let header_size = header.len();
+            reader.get_slice_or_error(sound_offset..end_of_block)?;
 
             let sound_type = get_sound_type_from_header(
                 header,
@@ -390,6 +391,8 @@ pub fn parse_more(
 
             let raw_data_size = reader.read_wz_int()? as usize;
             let raw_data_offset = reader.pos.get();
+            let raw_data_end = raw_data_offset.saturating_add(raw_data_size);
+            reader.get_slice_or_error(raw_data_offset..raw_data_end)?;
 
             node.write().unwrap().object_type =
                 WzRawData::new(org_reader, raw_data_offset, raw_data_size).into();
@@ -401,6 +404,7 @@ pub fn parse_more(
             reader.skip(3);
             let video_size = reader.read_wz_int()? as usize;
             let video_offset = reader.pos.get();
+            reader.get_slice_or_error(video_offset..video_offset.saturating_add(video_size))?;
             // pos - size shoud same as end_of_block
             let node = WzNode::new(
                 &property_name,
diff --git a/src/wz_image.rs b/src/wz_image.rs
index b04bdcd..0fb09c6 100644
--- a/src/wz_image.rs
+++ b/src/wz_image.rs
@@ -176,7 +176,9 @@ impl WzImage {
 
                     let name: WzNodeName = String::from("Script").into();
 
-                    let wz_lua = WzLua::new(&self.reader, offset, len as usize);
+                    let script =
+                        reader.get_slice_or_error(offset..offset.saturating_add(len as usize))?;
+                    let wz_lua = WzLua::new(&self.reader, offset, script.len());
 
                     let lua_node = WzNode::new(&name, wz_lua, parent);
 
@@ -190,7 +192,7 @@ impl WzImage {
             WzImageHeaderType::PackText => {
                 let property_string = String::from_iter(
                     reader
-                        .get_slice(self.offset..self.offset + 9)
+                        .get_slice_or_error(self.offset..self.offset.saturating_add(9))?
                         .iter()
                         .map(|&b| b as char),
                 );
@@ -198,8 +200,10 @@ impl WzImage {
                     return Err(Error::UnknownImageHeader(header_byte, reader.pos.get()));
                 }
                 let name: WzNodeName = String::from("text.txt").into();
-                let wz_raw_data =
-                    WzRawData::new(&self.reader, self.offset + 9, self.block_size - 9);
+                let offset = self.offset + 9;
+                let text = reader
+                    .get_slice_or_error(offset..self.offset.saturating_add(self.block_size))?;
+                let wz_raw_data = WzRawData::new(&self.reader, offset, text.len());
                 let raw_data_node = WzNode::new(&name, wz_raw_data, parent);
 
                 return Ok((vec![(name, raw_data_node.into_lock())], vec![]));
-- 
2.43.0


From 9b066d74f49d1eb210b2df13145154e02db915ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 10/30] fix: block compressed canvases whose size is not a
 multiple of 4 are decoded correctly

---
 src/property/png.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 6f93784..66bde88 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -382,7 +382,7 @@ fn get_image_from_dxt3(
         })?;
 
     // combine image buffer
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -404,7 +404,7 @@ fn get_image_from_dxt3(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (y / 4 * width.div_ceil(4) + x / 4) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt3(&mut alpha_table, &chunk[..8]);
 
@@ -414,8 +414,9 @@ fn get_image_from_dxt3(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // the last blocks of a row or column may be partially outside of the image
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
@@ -479,7 +480,7 @@ fn get_image_from_dxt5(
             Ok(acc)
         })?;
 
-    let grid_row_count = width / 4;
+    let grid_row_count = width.div_ceil(4);
     let img_buffer = image::ImageBuffer::from_par_fn(width, height, |x, y| {
         *image_buffer_chunks[(x / 4 + y / 4 * grid_row_count) as usize].get_pixel(x % 4, y % 4)
     });
@@ -502,7 +503,7 @@ fn get_image_from_dxt5(
 
     for y in (0..height).step_by(4) {
         for x in (0..width).step_by(4) {
-            let offset = (y * width + x * 4) as usize;
+            let offset = (y / 4 * width.div_ceil(4) + x / 4) as usize * 16;
             let chunk = &raw_data[offset..offset + 16];
             expand_alpha_table_dxt5(&mut alpha_table, chunk[0], chunk[1]);
             expand_alpha_index_table_dxt5(&mut alpha_idx_table, &chunk[2..8]);
@@ -513,8 +514,9 @@ fn get_image_from_dxt5(
             expand_color_table(&mut color_table, u0, u1);
             expand_color_index_table(&mut color_idx_table, &chunk[12..]);
 
-            for j in 0..4 {
-                for i in 0..4 {
+            // the last blocks of a row or column may be partially outside of the image
+            for j in 0..4.min(height - y) {
+                for i in 0..4.min(width - x) {
                     let idx = (j * 4 + i) as usize;
                     let color_idx = color_idx_table[idx] as usize;
                     let color = color_table[color_idx];
-- 
2.43.0


From e6a4e134e1ecbd6522cc5fd069b5be75a8efb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 11/30] fix: malformed canvas data is an error and no longer
 panics while the shared keys are locked

---
 src/property/png.rs | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index 66bde88..c1c80cb 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -170,7 +170,7 @@ impl WzPng {
     }
     #[inline]
     pub fn format(&self) -> WzPngFormat {
-        WzPngFormat::from(self.format1 + self.format2)
+        WzPngFormat::from(self.format1.wrapping_add(self.format2))
     }
     #[inline]
     fn has_zlib_header(&self) -> bool {
@@ -182,10 +182,15 @@ impl WzPng {
     pub fn extract_png(&self) -> Result<DynamicImage, WzPngParseError> {
         let data = self
             .reader
-            .get_slice(self.offset..(self.offset + self.block_size));
+            .get_slice_or_error(self.offset..self.offset.saturating_add(self.block_size))?;
         /* decompress */
         let pixels = self.get_raw_data(data)?;
 
+        let buff_size = self.get_buff_size()?;
+        if pixels.len() < buff_size {
+            return Err(reader::Error::OutOfBounds(buff_size, pixels.len()).into());
+        }
+
         match self.format() {
             WzPngFormat::BGRA4444 => get_image_from_bgra4444(pixels, self.width, self.height),
             WzPngFormat::BGRA8888 => get_image_from_bgra8888(pixels, self.width, self.height),
@@ -208,24 +213,22 @@ impl WzPng {
         }
     }
     fn get_buff_size(&self) -> Result<usize, WzPngParseError> {
+        let area = self.width as usize * self.height as usize;
         match self.format() {
             WzPngFormat::BGRA4444
             | WzPngFormat::ARGB1555
             | WzPngFormat::RGB565
-            | WzPngFormat::R16 => Ok((self.width * self.height * 2) as usize),
-            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => {
-                Ok((self.width * self.height * 4) as usize)
+            | WzPngFormat::R16 => Ok(area.saturating_mul(2)),
+            WzPngFormat::BGRA8888 | WzPngFormat::RGBA1010102 => Ok(area.saturating_mul(4)),
+            WzPngFormat::DXT3 | WzPngFormat::DXT3SM | WzPngFormat::DXT5 | WzPngFormat::BC7 => {
+                let blocks = self.width.div_ceil(4) as usize * self.height.div_ceil(4) as usize;
+                Ok(blocks.saturating_mul(16))
             }
-            WzPngFormat::DXT3SM => Ok((self.width * self.height * 4) as usize),
-            WzPngFormat::DXT3 | WzPngFormat::DXT5 => {
-                Ok((self.width.div_ceil(4) * self.height.div_ceil(4) * 16) as usize)
-            }
-            WzPngFormat::BC7 => Ok((self.width * (self.height & !3)) as usize),
-            WzPngFormat::A8 => Ok((self.width * self.height) as usize),
-            WzPngFormat::RGBA32Float => Ok((self.width * self.height * 16) as usize),
+            WzPngFormat::A8 => Ok(area),
+            WzPngFormat::RGBA32Float => Ok(area.saturating_mul(16)),
             WzPngFormat::RGB565_517 => {
                 /* 128 = 16 * 16 / 2 */
-                Ok((self.width * self.height / 128) as usize)
+                Ok(area / 128)
             }
             _ => Err(WzPngParseError::UnknownFormat(self.format())),
         }
@@ -244,40 +247,37 @@ impl WzPng {
         }
 
         // fallback to decryption and inflate
-        let mut keys = self.reader.keys.write().unwrap();
-
         let total_end = self.offset + self.block_size;
 
         let mut offset = self.offset;
-        let mut end = 0;
 
         let mut decrypted = Vec::with_capacity(self.block_size);
 
         while offset < total_end {
-            let block_size = self.reader.read_i32_at(offset).unwrap() as usize;
+            let block_size = self.reader.read_i32_at(offset)? as usize;
             offset += 4;
 
-            let data = self.reader.get_slice(offset..(offset + block_size));
+            let block = self
+                .reader
+                .get_decrypt_slice(offset..offset.saturating_add(block_size))?;
             offset += block_size;
 
-            decrypted.extend_from_slice(data);
-
-            keys.ensure_key_size(data.len()).unwrap();
-
-            keys.decrypt_slice(&mut decrypted[end..(end + block_size)]);
-
-            end += block_size;
+            decrypted.extend_from_slice(&block);
         }
 
         /* the total chunk shoud start decryption at index 2 */
-        inflate(false, &decrypted[2..], capacity)
+        let data = decrypted
+            .get(2..)
+            .ok_or(reader::Error::OutOfBounds(2, decrypted.len()))?;
+        inflate(false, data, capacity)
     }
 }
 
 #[inline]
 fn inflate(with_header: bool, data: &[u8], capacity: usize) -> Result<Vec<u8>, WzPngParseError> {
     let mut deflater = Decompress::new(with_header);
-    let mut result = Vec::with_capacity(capacity);
+    // the size of the output is not trusted, deflate can't expand more than 1032 times
+    let mut result = Vec::with_capacity(capacity.min(data.len().saturating_mul(1032)));
 
     if let Err(e) = deflater.decompress_vec(data, &mut result, FlushDecompress::Sync) {
         return Err(WzPngParseError::from(e));
-- 
2.43.0


From f7c5100bd274f104647bcd610de48fdb24060e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 12/30] fix: clearing a directory or pack file lets the next
 parse restore its children

---
 src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 680878a..ebc5f4a 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,10 +234,14 @@ impl WzNode {
         match &mut self.object_type {
             WzObjectType::Directory(directory) => {
                 directory.is_parsed = false;
+                directory.reset_entry_parse();
             }
             WzObjectType::File(file) => {
                 file.is_parsed = false;
             }
+            WzObjectType::MsFile(file) => {
+                file.is_parsed = false;
+            }
             WzObjectType::Image(image) => {
                 image.is_parsed = false;
             }
-- 
2.43.0


From 8dac0c6055217bf8f5c08237d1f87078ae2ebf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:00 +0000
Subject: [PATCH 13/30] fix: replacing the iv of a key drops the keys of the
 previous iv; an empty iv has a zero key stream

---
 src/util/string_decryptor/ecb_decryptor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/string_decryptor/ecb_decryptor.rs b/src/util/string_decryptor/ecb_decryptor.rs
index 49935b3..abfe67c 100644
--- a/src/util/string_decryptor/ecb_decryptor.rs
+++ b/src/util/string_decryptor/ecb_decryptor.rs
@@ -64,6 +64,9 @@ impl Decryptor for EcbDecryptor {
     fn set_iv(&mut self, iv: u64, enc_type: DecrypterType) {
         self.enc_type = enc_type;
         self.iv = (iv as u32).to_le_bytes();
+        self.without_decrypt = i32::from_le_bytes(self.iv) == 0;
+        // the keys belong to the previous iv
+        self.keys.clear();
     }
 
     fn get_iv_hash(&self) -> u64 {
@@ -83,6 +86,9 @@ impl Decryptor for EcbDecryptor {
 
     /// force get key at index, will expand key size if not enough.
     fn at(&mut self, index: usize) -> &u8 {
+        if self.without_decrypt {
+            return &0;
+        }
         if self.keys.len() <= index {
             self.ensure_key_size(index + 1).unwrap();
         }
-- 
2.43.0


From 10977447d4645ddfa146e0f239daca8d31998bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 14/30] fix: an encoded string's length counts UTF-16 units,
 not characters

---
 src/property/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/property/string.rs b/src/property/string.rs
index 66f6810..12d609c 100644
--- a/src/property/string.rs
+++ b/src/property/string.rs
@@ -119,7 +119,7 @@ impl WzString {
             len = str.len();
             WzStringType::Ascii
         } else {
-            len = str.chars().count() * 2;
+            len = str.encode_utf16().count() * 2;
             WzStringType::Unicode
         };
 
@@ -140,7 +140,7 @@ impl WzString {
     pub fn from_str_pkg2_dir(str: &str) -> Self {
         let mut keys = Pkg2Decryptor::new_with_key(0x1A2B3C4D, DecrypterType::KMST1198);
 
-        let len = str.chars().count() * 2;
+        let len = str.encode_utf16().count() * 2;
 
         let encrypted = encrypt_str(&mut keys, str, &WzStringType::Pkg2Dir);
 
-- 
2.43.0


From 0694bfaa7f4b34ff359c0f6d15540c69cb9d8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 15/30] fix: a traversal holds no lock while the callback
 visits the children

---
 src/util/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/walk.rs b/src/util/walk.rs
index 6b2fc17..20e311a 100644
--- a/src/util/walk.rs
+++ b/src/util/walk.rs
@@ -11,7 +11,9 @@ pub fn walk_node(node: &WzNodeArc, force_parse: bool, f: &dyn Fn(&WzNodeArc)) {
 
     f(node);
 
-    for child in node.read().unwrap().children.values() {
+    // don't hold the lock of this node while visiting the children, `f` may need it
+    let children: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
+    for child in children.iter() {
         walk_node(child, force_parse, f);
     }
 
-- 
2.43.0


From 3212f31c633b2fd22b319ce08426a34451788838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 16/30] fix: get_image follows links without holding the lock
 of the canvas node

---
 src/property/png.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index c1c80cb..a9b6332 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -53,29 +53,38 @@ type ImageBufferRgbChunk = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// A helper get image from `WzNodeArc`, will also resolve `_inlink` or `_outlink`
 pub fn get_image(node: &WzNodeArc) -> Result<DynamicImage, WzPngParseError> {
-    let node_read = node.read().unwrap();
-    match &node_read.object_type {
-        WzObjectType::Property(WzSubProperty::PNG(png)) => {
-            let inlink_target = node_read
-                .at("_inlink")
+    let (inlink, outlink) = {
+        let node_read = node.read().unwrap();
+        if !matches!(
+            node_read.object_type,
+            WzObjectType::Property(WzSubProperty::PNG(_))
+        ) {
+            return Err(WzPngParseError::NotPngProperty);
+        }
+        let link = |name| {
+            node_read
+                .at(name)
                 .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|inlink| node_util::resolve_inlink(&inlink, node));
+        };
+        (link("_inlink"), link("_outlink"))
+    };
 
-            if let Some(target) = inlink_target {
-                return get_image(&target);
-            }
+    // following a link may parse and so write lock every node in the way, including this one
+    let inlink_target = inlink.and_then(|inlink| node_util::resolve_inlink(&inlink, node));
 
-            let outlink_target = node_read
-                .at("_outlink")
-                .and_then(|node| resolve_string_from_node(&node).ok())
-                .and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
+    if let Some(target) = inlink_target {
+        return get_image(&target);
+    }
 
-            if let Some(target) = outlink_target {
-                return get_image(&target);
-            }
+    let outlink_target =
+        outlink.and_then(|outlink| node_util::resolve_outlink(&outlink, node, true));
 
-            png.extract_png()
-        }
+    if let Some(target) = outlink_target {
+        return get_image(&target);
+    }
+
+    match &node.read().unwrap().object_type {
+        WzObjectType::Property(WzSubProperty::PNG(png)) => png.extract_png(),
         _ => Err(WzPngParseError::NotPngProperty),
     }
 }
-- 
2.43.0


From 8e5b85a138c2fb01949ad1500faa1bc5e7ee120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 17/30] fix: resolving the uol of a node without parent does
 nothing instead of panicking

---
 src/util/node_util.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index 964a801..a064e85 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -55,14 +55,18 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
 /// Make a uol node become valid node, second argument is optional,
 /// it prevent the parent is the WzImage while it currently parsing causing the deadlock.
 pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
-    let node_parent = node.read().unwrap().parent.upgrade().unwrap();
+    // a node without parent has nothing to resolve the path from
+    let Some(node_parent) = node.read().unwrap().parent.upgrade() else {
+        return;
+    };
 
-    if let Some(ref mut uol_target_path) = node
+    let uol_target_path = node
         .read()
         .unwrap()
         .try_as_uol()
-        .and_then(|s| s.get_string().ok())
-    {
+        .and_then(|s| s.get_string().ok());
+
+    if let Some(uol_target_path) = uol_target_path {
         let mut pathes = uol_target_path.split('/');
 
         let first = if let Ok(node) = node.try_read() {
-- 
2.43.0


From f7dd5f6e89be94c01747e3710683f30bef725d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 18/30] fix: non-finite numbers convert to json null instead of
 panicking

---
 src/property/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/property/mod.rs b/src/property/mod.rs
index 2e2d368..0fe0d03 100644
--- a/src/property/mod.rs
+++ b/src/property/mod.rs
@@ -92,8 +92,9 @@ impl From<WzValue> for Value {
             WzValue::Short(value) => value.into(),
             WzValue::Int(value) => value.into(),
             WzValue::Long(value) => value.into(),
-            WzValue::Float(value) => Value::Number(Number::from_f64(value.into()).unwrap()),
-            WzValue::Double(value) => Value::Number(Number::from_f64(value).unwrap()),
+            // json has no NaN and infinity
+            WzValue::Float(value) => Number::from_f64(value.into()).map_or(Value::Null, Value::Number),
+            WzValue::Double(value) => Number::from_f64(value).map_or(Value::Null, Value::Number),
             WzValue::Vector(Vector2D(x, y)) => {
                 let mut vec = serde_json::Map::new();
                 vec.insert("x".to_string(), x.into());
-- 
2.43.0


From 814313aa078df27653b8d3d1ca535998f0a4e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 19/30] fix: key verification follows a referenced first entry
 like the directory does, and empty images have no key

---
 src/util/string_decryptor/mod.rs | 4 +++-
 src/util/version/mod.rs          | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/string_decryptor/mod.rs b/src/util/string_decryptor/mod.rs
index 44ffd2d..21dd9c2 100644
--- a/src/util/string_decryptor/mod.rs
+++ b/src/util/string_decryptor/mod.rs
@@ -80,7 +80,9 @@ pub(crate) fn try_get_first_wz_name_meta(buf: &[u8]) -> Result<WzStringMeta, rea
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            // the referenced entry type
+            reader.read_u8_at(offset)?;
             reader.read_wz_string_meta_at(offset + 1)?
         }
         WzDirectoryType::WzDirectory | WzDirectoryType::WzImage => reader.read_wz_string_meta()?,
diff --git a/src/util/version/mod.rs b/src/util/version/mod.rs
index efe8418..96d885a 100644
--- a/src/util/version/mod.rs
+++ b/src/util/version/mod.rs
@@ -81,7 +81,7 @@ pub fn verify_iv_from_wz_img(buf: &[u8], iv: &[u8; 4]) -> bool {
 /// Try to guess IV from wz image use fixed value. Currently will try GMS, EMS, BMS.
 pub fn guess_iv_from_wz_img(buf: &[u8]) -> Option<[u8; 4]> {
     // not support other then WzImageHeaderType::WithoutOffset
-    if buf[0] != 0x73 {
+    if buf.first() != Some(&0x73) {
         return None;
     }
 
@@ -139,7 +139,9 @@ pub fn verify_iv_from_wz_file(buf: &[u8], iv: &[u8; 4]) -> Result<(), reader::Er
         WzDirectoryType::MetaAtOffset => {
             let str_offset = reader.read_i32()?;
 
-            let offset = reader.header.data_start + str_offset as usize;
+            let offset = reader.header.fstart.wrapping_add(str_offset as usize);
+            // the referenced entry type
+            reader.read_u8_at(offset)?;
             // just check string can be valid string(instead of parse string lossy), so can prove the iv is valid
             let meta = reader.read_wz_string_meta_at(offset + 1)?;
             reader.try_resolve_wz_string_meta(
-- 
2.43.0


From a3051618109eadbc13f202e58338f091ec330e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 20/30] fix: the hash search includes the last hash, and long
 patch versions wrap

---
 src/util/version/pkg1.rs | 2 +-
 src/util/version/pkg2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/version/pkg1.rs b/src/util/version/pkg1.rs
index 1bd785f..001e681 100644
--- a/src/util/version/pkg1.rs
+++ b/src/util/version/pkg1.rs
@@ -21,7 +21,7 @@ impl VersionGen {
 
         for i in bind_version.chars() {
             let char_code = i.to_ascii_lowercase() as u32;
-            version_hash = version_hash * 32 + char_code + 1;
+            version_hash = version_hash.wrapping_mul(32).wrapping_add(char_code + 1);
         }
         version_hash
     }
diff --git a/src/util/version/pkg2.rs b/src/util/version/pkg2.rs
index 68bb08c..b115c2a 100644
--- a/src/util/version/pkg2.rs
+++ b/src/util/version/pkg2.rs
@@ -436,12 +436,12 @@ fn brute_force_hash<F: Fn(u32, u32, u32) -> bool + Sync>(
     verifier: &F,
 ) -> Vec<u32> {
     #[cfg(feature = "rayon")]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_par_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
     #[cfg(not(feature = "rayon"))]
-    return (0_u32..u32::MAX)
+    return (0_u32..=u32::MAX)
         .into_iter()
         .filter(|target_hash| verifier(hash1, hash2, *target_hash))
         .collect();
-- 
2.43.0


From e01d17a5e6a901e812ce310d7981ad5fa6103c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 21/30] fix: malformed pack headers are errors instead of
 panics

---
 src/ms/header.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/ms/header.rs b/src/ms/header.rs
index 4ee8cf2..4d6ddb6 100644
--- a/src/ms/header.rs
+++ b/src/ms/header.rs
@@ -58,7 +58,7 @@ impl MsHeader {
         // all the code is from https://github.com/Kagamia/WzComparerR2/pull/271/files#diff-d0d53b2411f7d680fb0c7c32bbf10138be0f7e662555cbc28d27353fbd2741d0
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
-        let rand_bytes = reader.get_slice(offset..rand_byte_count);
+        let rand_bytes = reader.get_slice_or_error(offset..rand_byte_count)?;
         offset += rand_byte_count;
 
         // 2. encrypted snowKeySalt
@@ -67,8 +67,11 @@ impl MsHeader {
         // plus 1 and skip 3 bytes
         offset += 4;
         let salt_len = hashed_salt_len ^ rand_bytes[0];
-        let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len);
+        if salt_len as usize > rand_bytes.len() {
+            return Err(reader::Error::OutOfBounds(salt_len as usize, rand_bytes.len()).into());
+        }
+        let salt_byte_len = salt_len as usize * 2;
+        let salt_bytes = reader.get_slice_or_error(offset..offset + salt_byte_len)?;
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len as usize)
@@ -84,13 +87,13 @@ impl MsHeader {
 
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let snow_key: [u8; MS_SNOW2_KEY_SIZE] = core::array::from_fn(|i| {
-            file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
         });
         let mut snow_decryptor = Snow2Decryptor::new(snow_key);
 
         let hstart = offset;
         // the snow decryptor is decrypting 4 bytes at a time, so we need to decrypt 12 bytes for only 9 bytes of data
-        let header_bytes = reader.get_slice(offset..offset + 12);
+        let header_bytes = reader.get_slice_or_error(offset..offset + 12)?;
 
         let mut decrypt_data = [0_u8; 12];
         decrypt_data.copy_from_slice(header_bytes);
@@ -111,7 +114,10 @@ impl MsHeader {
             .map(|s| u16::from_le_bytes([s[0], s[1]]))
             .fold(0, |acc: i32, x| acc.wrapping_add(x as i32));
 
-        let actual_hash = hashed_salt_len_i32 + version as i32 + entry_count + sum_of_salt_byte;
+        let actual_hash = hashed_salt_len_i32
+            .wrapping_add(version as i32)
+            .wrapping_add(entry_count)
+            .wrapping_add(sum_of_salt_byte);
         if hash != actual_hash {
             return Err(Error::HashMismatch(hash, actual_hash));
         }
@@ -143,7 +149,7 @@ impl MsHeader {
         // 1. random bytes
         let rand_byte_count = sum_str(&file_name) % 312 + 30;
         let rand_bytes: Vec<u8> = reader
-            .get_slice(offset..rand_byte_count)
+            .get_slice_or_error(offset..rand_byte_count)?
             .iter()
             .map(|b| ((*b as i8) >> 1) as u8)
             .collect();
@@ -162,14 +168,19 @@ impl MsHeader {
         let _hashed_salt_len_i32 = reader.read_i32_at(offset)?;
         offset += 4;
         let salt_len = (hashed_salt_len ^ rand_bytes[0]) as usize;
+        if salt_len > rand_bytes.len() {
+            return Err(reader::Error::OutOfBounds(salt_len, rand_bytes.len()).into());
+        }
         let salt_byte_len = (salt_len * 2) as usize;
-        let salt_bytes = reader.get_slice(offset..offset + salt_byte_len).to_vec();
+        let salt_bytes = reader
+            .get_slice_or_error(offset..offset + salt_byte_len)?
+            .to_vec();
         offset += salt_byte_len;
 
         let salt_string = (0..salt_len as usize)
             .map(|i| {
                 let a = rand_bytes[i] ^ salt_bytes[i * 2];
-                let b = ((a | 0x4B) << 1) - a - 75;
+                let b = ((a | 0x4B) << 1).wrapping_sub(a).wrapping_sub(75);
                 b as char
             })
             .collect::<String>();
@@ -181,13 +192,13 @@ impl MsHeader {
         let file_name_with_salt = format!("{}{}", file_name, &salt_string);
         let file_name_with_salt_bytes = file_name_with_salt.as_bytes();
         let chacha20_key: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
-            (file_name_with_salt_bytes[i % file_name_with_salt.len()] + i as u8)
+            file_name_with_salt_bytes[i % file_name_with_salt.len()].wrapping_add(i as u8)
                 ^ MS_CHACHA20_KEY_BASE[i]
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
         let mut chacha20_reader = ChaCha20Reader::new(
-            reader.get_slice(offset..offset + 128),
+            reader.get_slice_or_error(offset..offset + 128)?,
             &chacha20_key,
             &empty_nonce,
         );
-- 
2.43.0


From 14750471bd4d7f3d646a2bd2f57bb2dfdd39571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 22/30] fix: malformed pack entries are errors instead of
 panics

---
 src/ms/chacha20_reader.rs | 31 ++++++++++++++----------
 src/ms/file.rs            | 51 +++++++++++++++++++++++++++++++++------
 src/ms/ms_image.rs        |  8 ++----
 src/ms/snow2_reader.rs    |  5 +++-
 4 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/src/ms/chacha20_reader.rs b/src/ms/chacha20_reader.rs
index 1cc4141..ee88d10 100644
--- a/src/ms/chacha20_reader.rs
+++ b/src/ms/chacha20_reader.rs
@@ -39,15 +39,13 @@ impl<'a> ChaCha20Reader<'a> {
     }
     pub fn read_u32(&mut self) -> Result<u32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<u32>(0, LE).map_err(Error::from)
     }
     pub fn read_i32(&mut self) -> Result<i32, Error> {
         let mut buffer = [0_u8; 4];
-        buffer.copy_from_slice(&self.data[self.offset..self.offset + 4]);
-        self.apply_keystream(&mut buffer);
+        self.apply_keystream(&mut buffer)?;
 
         buffer.pread_with::<i32>(0, LE).map_err(Error::from)
     }
@@ -61,8 +59,11 @@ impl<'a> ChaCha20Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
-        let mut buffer = self.data[self.offset..self.offset + len].to_vec();
-        self.apply_keystream(&mut buffer);
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(len, self.data.len()));
+        }
+        let mut buffer = vec![0_u8; len];
+        self.apply_keystream(&mut buffer)?;
         Ok(buffer)
     }
     pub fn write_bytes_to(&mut self, dest_buffer: &mut [u8], len: usize) -> Result<(), Error> {
@@ -70,18 +71,20 @@ impl<'a> ChaCha20Reader<'a> {
             return Err(Error::DecryptError(len));
         }
 
-        dest_buffer.copy_from_slice(&self.data[self.offset..self.offset + len]);
-        self.apply_keystream(dest_buffer);
-
-        Ok(())
+        self.apply_keystream(&mut dest_buffer[..len])
     }
-    pub fn apply_keystream(&mut self, data: &mut [u8]) {
+    /// fill `data` with the following decrypted bytes
+    pub fn apply_keystream(&mut self, data: &mut [u8]) -> Result<(), Error> {
         let mut remain = data.len();
         let mut start = 0;
         while remain > 0 {
             if self.buffer_offset >= READER_CHUNK_SIZE {
-                self.buffer
-                    .copy_from_slice(&self.data[self.offset..self.offset + READER_CHUNK_SIZE]);
+                let end = self.offset.saturating_add(READER_CHUNK_SIZE);
+                let chunk = self
+                    .data
+                    .get(self.offset..end)
+                    .ok_or(Error::OutOfBounds(end, self.data.len()))?;
+                self.buffer.copy_from_slice(chunk);
                 self.decryptor.apply_keystream(&mut self.buffer);
                 self.offset += READER_CHUNK_SIZE;
                 self.buffer_offset = 0;
@@ -100,5 +103,7 @@ impl<'a> ChaCha20Reader<'a> {
         if self.buffer_offset >= READER_CHUNK_SIZE {
             self.decryptor.state.state.set_stream_param(0, 0);
         }
+
+        Ok(())
     }
 }
diff --git a/src/ms/file.rs b/src/ms/file.rs
index 2abc5da..52dc5f6 100644
--- a/src/ms/file.rs
+++ b/src/ms/file.rs
@@ -77,6 +77,28 @@ impl MsFile {
         }
     }
 
+    /// every entry takes more than 32 bytes, so the count can't be larger than the file
+    fn get_entry_capacity(&self) -> Result<usize, Error> {
+        usize::try_from(self.header.entry_count)
+            .ok()
+            .filter(|count| *count <= self.block_size / 32)
+            .ok_or(Error::InvalidMsFile)
+    }
+
+    /// the entry should have a name (it's part of the key) and its data should be in the file
+    fn verify_entry(&self, image: &MsImage) -> Result<(), Error> {
+        let is_valid_end = image
+            .offset
+            .checked_add(image.block_size)
+            .is_some_and(|end| end <= self.block_size);
+        let is_valid_size = image.meta.size >= 0 && image.meta.size <= image.meta.size_aligned;
+
+        if image.meta.entry_name.is_empty() || !is_valid_end || !is_valid_size {
+            return Err(Error::InvalidMsFile);
+        }
+        Ok(())
+    }
+
     fn parse_v1(&mut self, parent: &WzNodeArc) -> Result<WzNodeArcVec, Error> {
         // decrypt with another snow key
         let file_name_with_salt_bytes = self.header.name_with_salt.as_bytes();
@@ -85,7 +107,7 @@ impl MsFile {
         for i in 0_u8..16_u8 {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i as usize % file_name_with_salt_len];
-            snow_key[i as usize] = i + (i % 3 + 2).wrapping_mul(byte);
+            snow_key[i as usize] = i.wrapping_add((i % 3 + 2).wrapping_mul(byte));
         }
 
         let data = self.reader.get_slice(0..self.block_size);
@@ -93,11 +115,12 @@ impl MsFile {
 
         snow_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::with_capacity(self.get_entry_capacity()?);
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = snow_reader.read_i32()?;
-            let entry_name = snow_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = snow_reader
+                .read_utf16_string((entry_name_len as usize).saturating_mul(2))?;
             let check_sum = snow_reader.read_i32()?;
             let flags = snow_reader.read_i32()?;
             let start_pos = snow_reader.read_i32()?;
@@ -135,9 +158,14 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = image
+                .offset
+                .checked_mul(1024)
+                .and_then(|start| start.checked_add(data_start))
+                .ok_or(Error::InvalidMsFile)?;
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
+            self.verify_entry(image)?;
         }
 
         Ok(ms_images
@@ -161,7 +189,8 @@ impl MsFile {
         let chacha20_key2: [u8; MS_CHACHA20_KEY_SIZE] = core::array::from_fn(|i| {
             let byte = file_name_with_salt_bytes
                 [file_name_with_salt_len - 1 - i % file_name_with_salt_len];
-            MS_CHACHA20_KEY_BASE[i] ^ ((i as u8) + (((i as u8) % 3 + 2).wrapping_mul(byte)))
+            MS_CHACHA20_KEY_BASE[i]
+                ^ (i as u8).wrapping_add(((i as u8) % 3 + 2).wrapping_mul(byte))
         });
         let empty_nonce = [0; MS_CHACHA20_NONCE_SIZE];
 
@@ -172,11 +201,12 @@ impl MsFile {
         );
         chacha20_reader.offset = self.header.estart;
 
-        let mut ms_images = Vec::<MsImage>::with_capacity(self.header.entry_count as usize);
+        let mut ms_images = Vec::<MsImage>::with_capacity(self.get_entry_capacity()?);
 
         for _ in 0..self.header.entry_count {
             let entry_name_len = chacha20_reader.read_i32()?;
-            let entry_name = chacha20_reader.read_utf16_string(entry_name_len as usize * 2)?;
+            let entry_name = chacha20_reader
+                .read_utf16_string((entry_name_len as usize).saturating_mul(2))?;
             let check_sum = chacha20_reader.read_i32()?;
             let flags = chacha20_reader.read_i32()?;
             let start_pos = chacha20_reader.read_i32()?;
@@ -217,9 +247,14 @@ impl MsFile {
         }
 
         for image in ms_images.iter_mut() {
-            let actual_start = data_start + image.offset * 1024;
+            let actual_start = image
+                .offset
+                .checked_mul(1024)
+                .and_then(|start| start.checked_add(data_start))
+                .ok_or(Error::InvalidMsFile)?;
             image.offset = actual_start;
             image.meta.start_pos = actual_start as i32;
+            self.verify_entry(image)?;
         }
 
         Ok(ms_images
diff --git a/src/ms/ms_image.rs b/src/ms/ms_image.rs
index 017e0da..a34e65f 100644
--- a/src/ms/ms_image.rs
+++ b/src/ms/ms_image.rs
@@ -129,13 +129,9 @@ impl MsImage {
 
         // key
         let mut img_key = [0_u8; MS_CHACHA20_KEY_SIZE];
+        let entry_name_chars: Vec<char> = self.meta.entry_name.chars().collect();
         for i in 0..MS_CHACHA20_KEY_SIZE {
-            let char = self
-                .meta
-                .entry_name
-                .chars()
-                .nth(i % self.meta.entry_name.len())
-                .unwrap() as u8;
+            let char = entry_name_chars[i % entry_name_chars.len()] as u8;
             let digit = key_hash_digits[i % key_hash_digits.len()] % 2;
 
             let ekey_idx = ((key_hash_digits[(i + 2) % key_hash_digits.len()] + i as u8)
diff --git a/src/ms/snow2_reader.rs b/src/ms/snow2_reader.rs
index dc67c5f..e631028 100644
--- a/src/ms/snow2_reader.rs
+++ b/src/ms/snow2_reader.rs
@@ -76,6 +76,9 @@ impl<'a> Snow2Reader<'a> {
         String::from_utf16(&utf16_vec).map_err(Error::from)
     }
     pub fn read_bytes(&mut self, len: usize) -> Result<Vec<u8>, Error> {
+        if len > self.data.len() {
+            return Err(Error::OutOfBounds(len, self.data.len()));
+        }
         let mut vec = vec![0_u8; len];
 
         self.write_bytes_to(&mut vec, len)?;
@@ -93,7 +96,7 @@ impl<'a> Snow2Reader<'a> {
 
                 // move the remaining bytes to the beginning of the buffer
                 let mut temp_buffer = [0_u8; 4];
-                temp_buffer.copy_from_slice(&self.buffer[len..]);
+                temp_buffer[..4 - len].copy_from_slice(&self.buffer[len..]);
 
                 self.buffer.copy_from_slice(&temp_buffer);
 
-- 
2.43.0


From d931feb3c4e1d49fae3772dce3eea95c53b69a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 23/30] fix: a folder without its wz file is skipped when a
 folder of files is assembled

---
 src/util/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 9fb57ac..882c9fc 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -10,7 +10,7 @@ pub fn get_root_wz_file_path(dir: &DirEntry) -> Option<String> {
     inner_wz_name.push_str(".wz");
     let inner_wz_path = dir.path().join(inner_wz_name);
 
-    if inner_wz_path.try_exists().is_ok() {
+    if inner_wz_path.try_exists().unwrap_or(false) {
         return Some(inner_wz_path.to_str().unwrap().to_string());
     }
 
-- 
2.43.0


From 124becee97929abf5aeab9a8999b78e91b0f85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 24/30] fix: assembling a folder with a damaged wz file is an
 error instead of a panic

---
 src/util/resolver.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 882c9fc..6b3284b 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -27,14 +27,16 @@ pub fn resolve_root_wz_file_dir_full(
 ) -> Result<WzNodeArc, io::Error> {
     let root_node: WzNodeArc =
         WzNode::from_wz_file_full(&dir, version, patch_version, parent, default_keys)
-            .unwrap()
+            .map_err(io::Error::other)?
             .into();
     let wz_dir = dir.as_ref().parent().unwrap();
 
     {
         let mut root_node_write = root_node.write().unwrap();
 
-        root_node_write.parse(&root_node).unwrap();
+        root_node_write
+            .parse(&root_node)
+            .map_err(io::Error::other)?;
 
         for entry in wz_dir.read_dir()? {
             let entry = entry?;
@@ -78,7 +80,7 @@ pub fn resolve_root_wz_file_dir_full(
                     None,
                     default_keys,
                 )
-                .unwrap()
+                .map_err(io::Error::other)?
                 .into_lock();
 
                 let mut node_write = node.write().unwrap();
-- 
2.43.0


From e6bce4806bce32db5a6ba8577f31335194808c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 25/30] fix: nothing is available behind the end of the data

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1c4574a..5758308 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -335,7 +335,7 @@ impl<'a> WzSliceReader<'a> {
     }
     #[inline]
     pub fn available(&self) -> usize {
-        self.get_size() - self.pos.get()
+        self.get_size().saturating_sub(self.pos.get())
     }
     #[inline]
     pub fn seek(&self, pos: usize) {
-- 
2.43.0


From bdcfc5d6b25d8d3a6bc0f60eaed3df8c80a7d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 26/30] fix: resolving a uol looks only into the image for the
 image, not for any locked node

---
 src/util/node_util.rs | 61 +++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index a064e85..b58d183 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -67,48 +67,47 @@ pub fn resolve_uol(node: &WzNodeArc, wz_image: Option<&mut WzNode>) {
         .and_then(|s| s.get_string().ok());
 
     if let Some(uol_target_path) = uol_target_path {
-        let mut pathes = uol_target_path.split('/');
-
-        let first = if let Ok(node) = node.try_read() {
-            node.at_relative("..")
-        } else if let Some(image_node) = &wz_image {
-            image_node.at(pathes.next().unwrap())
-        } else {
-            None
-        };
-
-        let uol_target = if let Some(first) = first {
-            pathes.try_fold(first, |node, name| {
-                /* usually happen on parsing process, the WzImage is taking self a write lock
-                so just directly using wz_image here */
-                if let Ok(node) = node.try_read() {
-                    return node.at_relative(name);
-                } else if let Some(image_node) = &wz_image {
-                    return image_node.at(name);
-                }
-                None
-            })
-        } else {
-            None
-        };
+        /* the WzImage is locked by the parsing process, so it is used directly when the path
+        goes through it; any other locked node is not available */
+        let uol_target =
+            uol_target_path
+                .split('/')
+                .try_fold(Arc::clone(&node_parent), |node, name| match &wz_image {
+                    Some(image_node) if is_same_node(&node, image_node) => {
+                        image_node.at_relative(name)
+                    }
+                    _ => node.try_read().ok()?.at_relative(name),
+                });
 
         if let Some(target_node) = uol_target {
             let node_name = node.read().unwrap().name.clone();
 
-            /* when parent is locked, it means it's parent is WzImage, and it currently parsing */
-            if let Ok(mut parent) = node_parent.try_write() {
-                if let Some(origin) = parent.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
+            match wz_image {
+                Some(image_node) if is_same_node(&node_parent, image_node) => {
+                    if let Some(origin) = image_node.children.get_mut(&node_name) {
+                        let _ = std::mem::replace(origin, target_node);
+                    }
                 }
-            } else if let Some(wz_image) = wz_image {
-                if let Some(origin) = wz_image.children.get_mut(&node_name) {
-                    let _ = std::mem::replace(origin, target_node);
+                _ => {
+                    if let Ok(mut parent) = node_parent.try_write() {
+                        if let Some(origin) = parent.children.get_mut(&node_name) {
+                            let _ = std::mem::replace(origin, target_node);
+                        }
+                    }
                 }
             }
         }
     }
 }
 
+/// Check a borrowed `WzNode` is the one inside of the lock, without taking the lock.
+fn is_same_node(node: &WzNodeArc, inner: &WzNode) -> bool {
+    let start = Arc::as_ptr(node) as usize;
+    let end = start + std::mem::size_of_val(node.as_ref());
+
+    (start..end).contains(&(inner as *const WzNode as usize))
+}
+
 /// Get image node in the way, and return the rest of path.
 pub fn get_image_node_from_path<'a>(
     node: &'_ WzNodeArc,
-- 
2.43.0


From c048788cb4972bc054c9481f9937c8faf8d8e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 27/30] fix: finding the image of a path takes the path element
 by element

---
 src/util/node_util.rs | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index b58d183..b972d2e 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -113,34 +113,18 @@ pub fn get_image_node_from_path<'a>(
     node: &'_ WzNodeArc,
     path: &'a str,
 ) -> Option<(WzNodeArc, &'a str)> {
-    if path.is_empty() {
-        return None;
-    }
-
-    if path.contains(".img") {
-        let mut pathes = path.split_inclusive(".img");
-        let img_path = pathes.next()?;
-        let rest_path = pathes.next()?.strip_prefix('/')?;
-
-        let image_node = node.read().unwrap().at_path(img_path)?;
-
-        return Some((image_node, rest_path));
-    }
-
     let mut node = node.clone();
-    let mut slash_index = 0;
-    for split_path in path.split('/') {
-        let target = node.read().unwrap().at(split_path);
-        if let Some(target) = target {
-            node = target;
-            slash_index += split_path.len() + 1;
-            if node.read().unwrap().try_as_image().is_some() {
-                let rest = path.split_at(slash_index).1;
-                return Some((node, rest));
-            }
-        } else {
-            return None;
+    let mut rest_path = path;
+
+    while let Some((name, rest)) = rest_path.split_once('/') {
+        node = {
+            let read = node.read().unwrap();
+            read.at(name)?
+        };
+        if node.read().unwrap().try_as_image().is_some() {
+            return Some((node, rest));
         }
+        rest_path = rest;
     }
     None
 }
-- 
2.43.0


From cf06bea892057d68d7a845e5c60a11d54dfe75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 28/30] fix: a resolved uol path has no current-directory
 elements

---
 src/util/node_util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/node_util.rs b/src/util/node_util.rs
index b972d2e..0188958 100644
--- a/src/util/node_util.rs
+++ b/src/util/node_util.rs
@@ -43,6 +43,9 @@ pub fn get_resolved_uol_path(path: &str, uol_path: &str) -> String {
     /* uol path always start at parent */
     pathes.pop();
     for p in uol_path.split('/') {
+        if p == "." {
+            continue;
+        }
         if p == ".." && !pathes.is_empty() {
             pathes.pop();
         } else {
-- 
2.43.0


From fbeb3accdbb4a1f12e40f465d3ce71ada5774b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 29/30] fix: a folder with a dot in its name is no longer filed
 under a part of its name

---
 src/util/resolver.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/resolver.rs b/src/util/resolver.rs
index 6b3284b..0983be2 100644
--- a/src/util/resolver.rs
+++ b/src/util/resolver.rs
@@ -145,7 +145,13 @@ pub fn resolve_base(
         for item in wz_root_path.read_dir()? {
             let dir = item?;
             let path = dir.path();
-            let file_name = path.file_stem().unwrap();
+            let is_dir = dir.file_type()?.is_dir();
+            // a folder has no extension, everything in its name belongs to the name of its wz file
+            let file_name = if is_dir {
+                path.file_name().unwrap()
+            } else {
+                path.file_stem().unwrap()
+            };
 
             let is_valid = path.extension().unwrap_or_default() == "wz" || path.is_dir();
 
@@ -153,7 +159,7 @@ pub fn resolve_base(
             let has_dir = base_write.at(file_name.to_str().unwrap()).is_some();
 
             if has_dir && is_valid {
-                let wz_path = if dir.file_type()?.is_dir() {
+                let wz_path = if is_dir {
                     get_root_wz_file_path(&dir)
                 } else {
                     Some(path.to_str().unwrap().to_string())
-- 
2.43.0


From f28582dd3f7bad92badf8a4ff5fc2ab78fa8e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 30/30] fix: the color blocks of DXT3 and DXT5 always have four
 colors

---
 src/property/png.rs | 54 ++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/property/png.rs b/src/property/png.rs
index a9b6332..ac1f0a5 100644
--- a/src/property/png.rs
+++ b/src/property/png.rs
@@ -588,8 +588,6 @@ fn get_pixel_data_form_517(raw_data: &[u8], width: u32, height: u32) -> Vec<u8>
 fn create_color_table(c0: u16, c1: u16) -> [Rgb<u8>; 4] {
     let color1 = Rgb::<u8>::from_rgb565(c0);
     let color2 = Rgb::<u8>::from_rgb565(c1);
-    let color3: Rgb<u8>;
-    let color4: Rgb<u8>;
 
     let r = color1.r() as i32;
     let g = color1.g() as i32;
@@ -599,25 +597,17 @@ fn create_color_table(c0: u16, c1: u16) -> [Rgb<u8>; 4] {
     let g1 = color2.g() as i32;
     let b1 = color2.b() as i32;
 
-    if c0 > c1 {
-        color3 = Rgb([
-            ((r * 2 + r1 + 1) / 3) as u8,
-            ((g * 2 + g1 + 1) / 3) as u8,
-            ((b * 2 + b1 + 1) / 3) as u8,
-        ]);
-        color4 = Rgb([
-            ((r + r1 * 2 + 1) / 3) as u8,
-            ((g + g1 * 2 + 1) / 3) as u8,
-            ((b + b1 * 2 + 1) / 3) as u8,
-        ]);
-    } else {
-        color3 = Rgb([
-            ((r + r1) / 2) as u8,
-            ((g + g1) / 2) as u8,
-            ((b + b1) / 2) as u8,
-        ]);
-        color4 = Rgb::<u8>::black();
-    }
+    // unlike DXT1, a block of DXT3 or DXT5 has four colors whatever the order of the first two
+    let color3 = Rgb([
+        ((r * 2 + r1 + 1) / 3) as u8,
+        ((g * 2 + g1 + 1) / 3) as u8,
+        ((b * 2 + b1 + 1) / 3) as u8,
+    ]);
+    let color4 = Rgb([
+        ((r + r1 * 2 + 1) / 3) as u8,
+        ((g + g1 * 2 + 1) / 3) as u8,
+        ((b + b1 * 2 + 1) / 3) as u8,
+    ]);
 
     [color1, color2, color3, color4]
 }
@@ -636,23 +626,13 @@ fn expand_color_table(color_table: &mut [Rgb<u8>; 4], c0: u16, c1: u16) {
     let g1 = color_table[1].g() as i32;
     let b1 = color_table[1].b() as i32;
 
-    if c0 > c1 {
-        color_table[2][0] = ((r * 2 + r1 + 1) / 3) as u8;
-        color_table[2][1] = ((g * 2 + g1 + 1) / 3) as u8;
-        color_table[2][2] = ((b * 2 + b1 + 1) / 3) as u8;
+    color_table[2][0] = ((r * 2 + r1 + 1) / 3) as u8;
+    color_table[2][1] = ((g * 2 + g1 + 1) / 3) as u8;
+    color_table[2][2] = ((b * 2 + b1 + 1) / 3) as u8;
 
-        color_table[3][0] = ((r + r1 * 2 + 1) / 3) as u8;
-        color_table[3][1] = ((g + g1 * 2 + 1) / 3) as u8;
-        color_table[3][2] = ((b + b1 * 2 + 1) / 3) as u8;
-    } else {
-        color_table[2][0] = ((r + r1) / 2) as u8;
-        color_table[2][1] = ((g + g1) / 2) as u8;
-        color_table[2][2] = ((b + b1) / 2) as u8;
-        // set to black
-        color_table[3][0] = 0;
-        color_table[3][1] = 0;
-        color_table[3][2] = 0;
-    }
+    color_table[3][0] = ((r + r1 * 2 + 1) / 3) as u8;
+    color_table[3][1] = ((g + g1 * 2 + 1) / 3) as u8;
+    color_table[3][2] = ((b + b1 * 2 + 1) / 3) as u8;
 }
 
 #[inline]
-- 
2.43.0

