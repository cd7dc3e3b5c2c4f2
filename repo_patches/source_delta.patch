From 6f78c7ab342efe8ddca03740b9e6e6cdbe35e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:43 +0000
Subject: [PATCH 01/38] fix: keep a trailing caret and non-Latin characters
 after a caret when un-escaping text

---
 src/code_pair_value.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..2f4f37e 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -66,11 +66,13 @@ impl CodePairValue {
                                 ']' => 0x1D,
                                 '^' => 0x1E,
                                 '_' => 0x1F,
-                                ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                ' ' => 0x5E,
+                                _ => c as u32, // invalid escape sequence, just keep the character
                             };
 
-                            result.push(c as char);
+                            if let Some(c) = std::char::from_u32(c) {
+                                result.push(c);
+                            }
                         } else {
                             result.push(c);
                         }
@@ -78,6 +80,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // a trailing caret doesn't start an escape sequence, keep it
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
-- 
2.43.0


From e343d022c11cd8c3732c74ea630f393a10bf6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 02/38] fix: make the \U+XXXX escaping of pre-R2007 text
 reversible for every string

---
 src/code_pair_value.rs | 74 +++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index 2f4f37e..c450485 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -186,12 +186,35 @@ pub(crate) fn escape_control_characters(val: &str) -> String {
     result
 }
 
+/// Gets the value of the escaped UTF-16 code unit (i.e., `\U+XXXX`) that starts at the specified index, if there is one.
+fn escaped_code_unit(chars: &[char], index: usize) -> Option<u32> {
+    if chars.len() < 7 || index > chars.len() - 7 {
+        return None;
+    }
+
+    if chars[index] != '\\' || chars[index + 1] != 'U' || chars[index + 2] != '+' {
+        return None;
+    }
+
+    let d1 = chars[index + 3].to_digit(16)?;
+    let d2 = chars[index + 4].to_digit(16)?;
+    let d3 = chars[index + 5].to_digit(16)?;
+    let d4 = chars[index + 6].to_digit(16)?;
+    Some(d1 * 0x1000 + d2 * 0x100 + d3 * 0x10 + d4)
+}
+
 pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
-    for c in val.chars() {
+    let chars: Vec<char> = val.chars().collect();
+    for (i, &c) in chars.iter().enumerate() {
         let b = c as u32;
-        if b >= 128 {
+        if b >= 0x10000 {
+            // written as a UTF-16 surrogate pair
+            result.push_str(&format!("\\U+{:04X}", 0xD800 + (b - 0x10000) / 0x400));
+            result.push_str(&format!("\\U+{:04X}", 0xDC00 + (b - 0x10000) % 0x400));
+        } else if b >= 128 || escaped_code_unit(&chars, i).is_some() {
+            // non-ASCII, or a backslash that would otherwise be mistaken for an escape sequence
             result.push_str(&format!("\\U+{:04X}", b));
         } else {
             result.push(c);
@@ -203,36 +226,27 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
 
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
     let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
-            }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
-                }
 
-                seq.clear();
+    let chars: Vec<char> = val.chars().collect();
+    let mut i = 0;
+    while i < chars.len() {
+        if let Some(unit) = escaped_code_unit(&chars, i) {
+            i += 7;
+            let mut code = unit;
+            if (0xD800..0xDC00).contains(&unit) {
+                if let Some(low) = escaped_code_unit(&chars, i) {
+                    if (0xDC00..0xE000).contains(&low) {
+                        i += 7;
+                        code = 0x10000 + (unit - 0xD800) * 0x400 + (low - 0xDC00);
+                    }
+                }
             }
+
+            result.push(std::char::from_u32(code).unwrap_or('?'));
+        } else {
+            // not an escape sequence, keep the character
+            result.push(chars[i]);
+            i += 1;
         }
     }
 
-- 
2.43.0


From a8b714fa0e96ac944fdf506f0b35c24c39b14499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 03/38] fix: decode strings of binary files as the UTF-8 they
 are written in

---
 src/code_pair_iter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..c4edcc3 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -270,17 +270,19 @@ impl<T: Read> BinaryCodePairIter<T> {
         Some(Ok(CodePair::new(code, value, self.offset)))
     }
     fn read_string_binary(&mut self) -> DxfResult<String> {
-        let mut s = String::new();
+        let mut bytes = vec![];
         loop {
             match read_u8(&mut self.reader) {
                 Some(Ok(0)) => break,
-                Some(Ok(c)) => s.push(c as char),
+                Some(Ok(c)) => bytes.push(c),
                 Some(Err(e)) => return Err(DxfError::IoError(e)),
                 None => return Err(DxfError::UnexpectedEndOfInput),
             }
         }
 
-        Ok(s)
+        // strings are written as UTF-8; treat anything else as single-byte characters
+        String::from_utf8(bytes)
+            .or_else(|e| Ok(e.into_bytes().iter().map(|&b| b as char).collect()))
     }
 }
 
-- 
2.43.0


From f00ea7b9d284cb2fe41c3e7caf6c95ba4f8b3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 04/38] fix: don't treat the start of a text value as a byte
 order mark

---
 src/helper_functions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..2f6db09 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -321,9 +321,9 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From 0a4ae8e54a4edd32f72ffeb7103812d86538f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:35 +0000
Subject: [PATCH 05/38] fix: keep every attribute of an INSERT when each is
 followed by its MTEXT

---
 src/entity_iter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..d7eab15 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -110,11 +110,17 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
-                            specific: EntityType::Attribute(att),
+                            specific: EntityType::Attribute(mut att),
                             ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                        }) => {
+                            // each attribute may be followed by its own MTEXT
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles
+                                .push((att, AUTO_REPLACE_HANDLE));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
-- 
2.43.0


From 059a5551e4befe6fb7a13b6cd9e020fb8e13b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:43 +0000
Subject: [PATCH 06/38] fix: write an entity's XDATA before its child entities
 so that it stays attached

---
 src/entity.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..624d50f 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1305,10 +1305,12 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            // child entities come after everything that belongs to this one
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 43c7a298e77c56717cbc040e50b4a491536524b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:56 +0000
Subject: [PATCH 07/38] fix: keep the handles of vertices, attributes and
 SEQENDs when loading

---
 src/drawing.rs     | 50 ++++++++++++++++++++++++++++------------------
 src/entity_iter.rs | 32 ++++++++++++++++++-----------
 2 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..b2b99fe 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -409,25 +409,9 @@ impl Drawing {
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
         entity.common.handle = self.next_handle();
-
-        // set child handles
         match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = self.next_handle(),
             _ => (),
         }
 
@@ -671,7 +655,34 @@ impl Drawing {
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
-    fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
+    /// Assigns a handle to each child that was read from a file without one.
+    fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => {
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    if a.1 == AUTO_REPLACE_HANDLE {
+                        a.1 = self.next_handle();
+                    }
+                }
+                if ins.__seqend_handle.is_empty() {
+                    ins.__seqend_handle = self.next_handle();
+                }
+            }
+            EntityType::Polyline(ref mut poly) => {
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    if v.1 == AUTO_REPLACE_HANDLE {
+                        v.1 = self.next_handle();
+                    }
+                }
+                if poly.__seqend_handle.is_empty() {
+                    poly.__seqend_handle = self.next_handle();
+                }
+            }
+            _ => (),
+        }
+    }
+    fn add_entity_no_handle_set(&mut self, mut entity: Entity) -> &Entity {
+        self.ensure_child_handles_are_set(&mut entity);
         self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
@@ -834,6 +845,7 @@ impl Drawing {
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
             ent.common.handle = self.next_handle();
+            self.ensure_child_handles_are_set(ent);
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index d7eab15..9007ea4 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -30,22 +30,30 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    /// Reads the SEQEND, if there is one, and returns its handle.
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
+                Ok(Handle::empty())
             }
-            None => (),
+            None => Ok(Handle::empty()),
         }
+    }
 
-        Ok(())
+    fn child_handle(handle: Handle) -> Handle {
+        if handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            handle
+        }
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -110,8 +118,8 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Attribute(mut att),
-                            ..
                         }) => {
                             // each attribute may be followed by its own MTEXT
                             if let Some(m_text) = mtext(&mut iter)? {
@@ -119,7 +127,7 @@ where
                             }
 
                             ins.__attributes_and_handles
-                                .push((att, AUTO_REPLACE_HANDLE));
+                                .push((att, child_handle(common.handle)));
                         }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
@@ -130,7 +138,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -146,11 +154,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         }) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -160,7 +168,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From a67861d18b84124ce9193e9f20ee8c72a7a05419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:58 +0000
Subject: [PATCH 08/38] fix: don't add a second block record for a block that
 already has one

---
 src/drawing.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index b2b99fe..9b5a8da 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -650,7 +650,7 @@ impl Drawing {
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
-        self.ensure_block_record_is_present_for_block(&mut block);
+        self.ensure_block_record_is_present(&block.name);
         self.ensure_block_entity_handles_are_set(&mut block);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
@@ -836,12 +836,6 @@ impl Drawing {
             self.ensure_line_type_is_present(&ent.common.line_type_name);
         }
     }
-    fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
-    }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
             ent.common.handle = self.next_handle();
-- 
2.43.0


From 059daf85258e0e940c8c72cc70a340f8e93539a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:01 +0000
Subject: [PATCH 09/38] fix: keep the handles of a block's entities when
 loading

---
 src/block.rs   | 5 ++---
 src/drawing.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..f589714 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,10 +148,9 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                current.handle = drawing.next_handle();
                             }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair { code: 0, .. } => {
diff --git a/src/drawing.rs b/src/drawing.rs
index 9b5a8da..43784f3 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -392,6 +392,9 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        for ent in &mut block.entities {
+            ent.common.handle = Handle::empty();
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -838,7 +841,9 @@ impl Drawing {
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if ent.common.handle.is_empty() {
+                ent.common.handle = self.next_handle();
+            }
             self.ensure_child_handles_are_set(ent);
         }
     }
-- 
2.43.0


From 4447fd74ffb26430890a8b876531a5b1233606d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:37 +0000
Subject: [PATCH 10/38] fix: never give out a handle that an item read from the
 file already uses

---
 src/drawing.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index 43784f3..d6d2c20 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -643,6 +643,12 @@ impl Drawing {
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Ensures that a handle already in use is never given out again.
+    fn reserve_handle(&mut self, handle: Handle) {
+        if handle.0 >= self.header.next_available_handle.0 && handle != AUTO_REPLACE_HANDLE {
+            self.header.next_available_handle = handle.next_handle_value();
+        }
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
@@ -651,6 +657,7 @@ impl Drawing {
         }
     }
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
+        self.reserve_handle(block.handle);
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
         self.ensure_block_record_is_present(&block.name);
@@ -662,6 +669,10 @@ impl Drawing {
     fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
         match entity.specific {
             EntityType::Insert(ref mut ins) => {
+                self.reserve_handle(ins.__seqend_handle);
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    self.reserve_handle(a.1);
+                }
                 for a in ins.__attributes_and_handles.iter_mut() {
                     if a.1 == AUTO_REPLACE_HANDLE {
                         a.1 = self.next_handle();
@@ -672,6 +683,10 @@ impl Drawing {
                 }
             }
             EntityType::Polyline(ref mut poly) => {
+                self.reserve_handle(poly.__seqend_handle);
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    self.reserve_handle(v.1);
+                }
                 for v in poly.__vertices_and_handles.iter_mut() {
                     if v.1 == AUTO_REPLACE_HANDLE {
                         v.1 = self.next_handle();
@@ -685,6 +700,7 @@ impl Drawing {
         }
     }
     fn add_entity_no_handle_set(&mut self, mut entity: Entity) -> &Entity {
+        self.reserve_handle(entity.common.handle);
         self.ensure_child_handles_are_set(&mut entity);
         self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
@@ -695,6 +711,7 @@ impl Drawing {
         self.__entities.last().unwrap()
     }
     fn add_object_no_handle_set(&mut self, obj: Object) -> &Object {
+        self.reserve_handle(obj.common.handle);
         self.ensure_layer_is_present_for_object(&obj);
         self.ensure_line_type_is_present_for_object(&obj);
         self.ensure_text_style_is_present_for_object(&obj);
@@ -703,6 +720,7 @@ impl Drawing {
         self.__objects.last().unwrap()
     }
     pub(crate) fn add_app_id_no_handle_set(&mut self, app_id: AppId) -> &AppId {
+        self.reserve_handle(app_id.handle);
         // TODO: ensure invariants
         self.__app_ids.push(app_id);
         self.__app_ids.last().unwrap()
@@ -711,41 +729,49 @@ impl Drawing {
         &mut self,
         block_record: BlockRecord,
     ) -> &BlockRecord {
+        self.reserve_handle(block_record.handle);
         // TODO: ensure invariants
         self.__block_records.push(block_record);
         self.__block_records.last().unwrap()
     }
     pub(crate) fn add_dim_style_no_handle_set(&mut self, dim_style: DimStyle) -> &DimStyle {
+        self.reserve_handle(dim_style.handle);
         // TODO: ensure invariants
         self.__dim_styles.push(dim_style);
         self.__dim_styles.last().unwrap()
     }
     pub(crate) fn add_layer_no_handle_set(&mut self, layer: Layer) -> &Layer {
+        self.reserve_handle(layer.handle);
         self.ensure_line_type_is_present(&layer.line_type_name);
         self.__layers.push(layer);
         self.__layers.last().unwrap()
     }
     pub(crate) fn add_line_type_no_handle_set(&mut self, line_type: LineType) -> &LineType {
+        self.reserve_handle(line_type.handle);
         // TODO: ensure invariants
         self.__line_types.push(line_type);
         self.__line_types.last().unwrap()
     }
     pub(crate) fn add_style_no_handle_set(&mut self, style: Style) -> &Style {
+        self.reserve_handle(style.handle);
         // TODO: ensure invariants
         self.__styles.push(style);
         self.__styles.last().unwrap()
     }
     pub(crate) fn add_ucs_no_handle_set(&mut self, ucs: Ucs) -> &Ucs {
+        self.reserve_handle(ucs.handle);
         // TODO: ensure invariants
         self.__ucss.push(ucs);
         self.__ucss.last().unwrap()
     }
     pub(crate) fn add_view_no_handle_set(&mut self, view: View) -> &View {
+        self.reserve_handle(view.handle);
         // TODO: ensure invariants
         self.__views.push(view);
         self.__views.last().unwrap()
     }
     pub(crate) fn add_view_port_no_handle_set(&mut self, view_port: ViewPort) -> &ViewPort {
+        self.reserve_handle(view_port.handle);
         // TODO: ensure invariants
         self.__view_ports.push(view_port);
         self.__view_ports.last().unwrap()
@@ -840,6 +866,9 @@ impl Drawing {
         }
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
+        for ent in &block.entities {
+            self.reserve_handle(ent.common.handle);
+        }
         for ent in &mut block.entities {
             if ent.common.handle.is_empty() {
                 ent.common.handle = self.next_handle();
-- 
2.43.0


From 3952300c63dd1b4f780bbd3d828a94dc35a8f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:20 +0000
Subject: [PATCH 11/38] fix: report errors in entities and objects instead of
 dropping the item

---
 src/block.rs       |  2 +-
 src/drawing.rs     |  7 +++----
 src/entity_iter.rs | 24 ++++++++++++++++++++----
 src/object_iter.rs | 10 ++++------
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index f589714..01b8b12 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -156,7 +156,7 @@ impl Block {
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter { iter };
+                            let mut iter = EntityIter::new(iter);
                             iter.read_entities_into_vec(&mut current.entities)?;
                         }
                         _ => {
diff --git a/src/drawing.rs b/src/drawing.rs
index d6d2c20..c4c573a 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,6 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use itertools::put_back;
 use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
@@ -1104,7 +1103,7 @@ impl Drawing {
         Ok(())
     }
     fn read_entities(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let mut iter = EntityIter { iter };
+        let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
@@ -1117,8 +1116,8 @@ impl Drawing {
         Ok(())
     }
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let iter = put_back(ObjectIter { iter });
-        for o in iter {
+        for o in (ObjectIter { iter }) {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 9007ea4..3fa99a0 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,28 +1,44 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::{DxfResult, Handle};
+use crate::{DxfError, DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
 pub(crate) struct EntityIter<'a> {
     pub iter: &'a mut CodePairPutBack,
+    error: Option<DxfError>,
 }
 
 impl Iterator for EntityIter<'_> {
     type Item = Entity;
 
     fn next(&mut self) -> Option<Entity> {
+        if self.error.is_some() {
+            return None;
+        }
+
         match Entity::read(self.iter) {
             Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                self.error = Some(e);
+                None
+            }
         }
     }
 }
 
-impl EntityIter<'_> {
+impl<'a> EntityIter<'a> {
+    pub(crate) fn new(iter: &'a mut CodePairPutBack) -> Self {
+        EntityIter { iter, error: None }
+    }
     pub(crate) fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> DxfResult<()> {
-        collect_entities(self, entities)
+        collect_entities(self, entities)?;
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From 6ab0f6bea3846496e3140dfdc3af9471342068ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:21 +0000
Subject: [PATCH 12/38] fix: write a block's XDATA where it is read back

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 01b8b12..bf3081f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -246,6 +246,10 @@ impl Block {
             pairs.push(CodePair::new_string(4, &self.description));
         }
 
+        for x in &self.x_data {
+            x.add_code_pairs(pairs, version);
+        }
+
         for e in &self.entities {
             e.add_code_pairs(pairs, version, write_handles);
         }
@@ -277,10 +281,6 @@ impl Block {
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbBlockEnd"));
         }
-
-        for x in &self.x_data {
-            x.add_code_pairs(pairs, version);
-        }
     }
 }
 
-- 
2.43.0


From 19d5100730b08555dc7128d1faf38486f56227f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:24 +0000
Subject: [PATCH 13/38] fix: don't loop forever on a BLOCK without ENDBLK

---
 src/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index bf3081f..fcf0d33 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -153,6 +153,16 @@ impl Block {
                             drawing.add_block_no_handle_set(current);
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From 4cc1620d938ce7ed9b20a97bffdeb9e0f69adc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:57 +0000
Subject: [PATCH 14/38] fix: split binary data longer than 255 bytes into
 several pairs in binary files

---
 src/code_pair_writer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..bf142ab 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -65,6 +65,17 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            // the length of a chunk is written as a single byte, so longer data needs several pairs
+            let max_chunk_size = usize::from(u8::MAX);
+            if buf.len() > max_chunk_size {
+                for chunk in buf.chunks(max_chunk_size) {
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
+                }
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
-- 
2.43.0


From d52e3d619c53d4342b7ab8bfb6c8ae19ea0c538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:00 +0000
Subject: [PATCH 15/38] fix: don't overflow on the smallest layer color value

---
 src/color.rs            | 2 +-
 src/helper_functions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 2f6db09..d865bfe 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -288,7 +288,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From 10ac8d07eae4e19da01b65f939450366dc7af3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:03 +0000
Subject: [PATCH 16/38] fix: don't overflow after the largest handle

---
 src/handle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..eaab3aa 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,8 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        // the empty handle is never a valid value
+        Handle(self.0.checked_add(1).unwrap_or(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
-- 
2.43.0


From a7ac41147ae860a36000a8a2a39021ca96ae108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:50 +0000
Subject: [PATCH 17/38] fix: never assign the empty handle, even if the file's
 next available handle is 0

---
 src/drawing.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index c4c573a..af7452c 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -626,9 +626,7 @@ impl Drawing {
     }
     pub(crate) fn assign_and_get_handle(&mut self, item: &mut DrawingItemMut) -> Handle {
         if item.handle().is_empty() {
-            item.set_handle(self.header.next_available_handle);
-            self.header.next_available_handle =
-                self.header.next_available_handle.next_handle_value();
+            item.set_handle(self.next_handle());
         }
 
         item.handle()
@@ -638,6 +636,10 @@ impl Drawing {
 // private implementation
 impl Drawing {
     pub(crate) fn next_handle(&mut self) -> Handle {
+        if self.header.next_available_handle.is_empty() {
+            // the empty handle can't be assigned
+            self.header.next_available_handle = Handle(1);
+        }
         let result = self.header.next_available_handle;
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
-- 
2.43.0


From 34a9c5a7fd2e0422f34791e9b7c9f9c35d2247f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:52 +0000
Subject: [PATCH 18/38] fix: report errors when the last part of a saved file
 can't be written

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index af7452c..ee60aef 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -211,7 +211,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?;
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -225,7 +227,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?;
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 6c5bd48cae1f18d4e9a99595fa08222fd081035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:55 +0000
Subject: [PATCH 19/38] fix: keep the two words of a proxy entity's drawing
 format apart

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 624d50f..6977539 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,15 +165,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32 & 0xFFFF) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From f9b1ed1ab4f6aae30452b434221365e1461ea06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:58 +0000
Subject: [PATCH 20/38] fix: read dates back to the second they were written
 with and don't panic on huge values

---
 src/helper_functions.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index d865bfe..6c0867e 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -31,12 +31,13 @@ pub(crate) fn as_bool(v: i16) -> bool {
 }
 
 fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
-    let days_since_dublin = f - 2_415_020.0; // julian dublin offset, e.g., December 31, 1899 12:00AM
+    // julian dublin offset, e.g., December 31, 1899 12:00AM; functions consuming this need to use
+    // 1900/01/01 as a base so we counter the extra day here
+    let days_since_1900 = f - 2_415_021.0;
     let secs_per_day = 24i64 * 60 * 60;
-    let seconds = days_since_dublin * secs_per_day as f64;
-    // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // the fraction of a day isn't exact, so use the nearest whole second
+    let seconds = (days_since_1900 * secs_per_day as f64).round();
+    ChronoDuration::try_seconds(seconds as i64).unwrap_or_default()
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -62,7 +63,7 @@ where
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    epoch.clone().checked_add_signed(duration).unwrap_or(epoch)
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
-- 
2.43.0


From 4e8880f01dda9752f893e5fdfa4dfe05ab4106e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:37 +0000
Subject: [PATCH 21/38] fix: keep the matrices of a MATERIAL and the elements
 of an MLINESTYLE when loading

---
 src/object.rs | 56 ++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..d3eec0a 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
@@ -209,38 +208,41 @@ impl Object {
                 );
             }
             ObjectType::Material(ref mut material) => {
-                material.diffuse_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__diffuse_map_transformation_matrix_values,
+                fn set_matrix(matrix: &mut TransformationMatrix, values: &mut Vec<f64>) {
+                    if !values.is_empty() {
+                        *matrix = TransformationMatrix::from_vec(values);
+                        values.clear();
+                    }
+                }
+
+                set_matrix(
+                    &mut material.diffuse_map_transformation_matrix,
+                    &mut material.__diffuse_map_transformation_matrix_values,
                 );
-                material.specular_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__specular_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.specular_map_transformation_matrix,
+                    &mut material.__specular_map_transformation_matrix_values,
                 );
-                material.reflection_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__reflection_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.reflection_map_transformation_matrix,
+                    &mut material.__reflection_map_transformation_matrix_values,
                 );
-                material.opacity_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__opacity_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.opacity_map_transformation_matrix,
+                    &mut material.__opacity_map_transformation_matrix_values,
                 );
-                material.bump_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__bump_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.bump_map_transformation_matrix,
+                    &mut material.__bump_map_transformation_matrix_values,
                 );
-                material.refraction_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__refraction_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.refraction_map_transformation_matrix,
+                    &mut material.__refraction_map_transformation_matrix_values,
                 );
-                material.normal_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__normal_map_transformation_matrix_values,
+                set_matrix(
+                    &mut material.normal_map_transformation_matrix,
+                    &mut material.__normal_map_transformation_matrix_values,
                 );
-                material.__diffuse_map_transformation_matrix_values.clear();
-                material.__specular_map_transformation_matrix_values.clear();
-                material
-                    .__reflection_map_transformation_matrix_values
-                    .clear();
-                material.__opacity_map_transformation_matrix_values.clear();
-                material.__bump_map_transformation_matrix_values.clear();
-                material
-                    .__refraction_map_transformation_matrix_values
-                    .clear();
-                material.__normal_map_transformation_matrix_values.clear();
             }
             ObjectType::MLineStyle(ref mut mline) => {
                 for (o, (c, l)) in mline.__element_offsets.drain(..).zip(
-- 
2.43.0


From e1e8c60ad1fb79381110281cc318a04b1b2bc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:40 +0000
Subject: [PATCH 22/38] fix: read the specular map file name of a MATERIAL into
 its own field

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index d3eec0a..b844115 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -700,7 +700,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 381de5be94cd32728425769b8c191c92fd8a45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:43 +0000
Subject: [PATCH 23/38] fix: write the hard owner flag of a DICTIONARY when it
 is set

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index b844115..e6923fc 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1544,7 +1544,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 8b2712be8eb796d9a4ec656cf6a6a1ede8e68409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:46 +0000
Subject: [PATCH 24/38] fix: read the lights and the version of a LIGHTLIST

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index e6923fc..d9635db 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -652,7 +652,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 1ba7d21f1081a9089b8a8873c3fe31a6011e3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 25/38] fix: don't add the duplicate record handling and XDATA
 of an XRECORD to its data

---
 src/object.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index d9635db..77a992c 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -15,6 +15,7 @@ use crate::code_pair_put_back::CodePairPutBack;
 use crate::enums::*;
 use crate::helper_functions::*;
 use crate::objects::*;
+use crate::x_data::XDATA_APPLICATIONNAME;
 
 //------------------------------------------------------------------------------
 //                                                                  GeoMeshPoint
@@ -1442,7 +1443,9 @@ impl Object {
         let mut reading_data = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data {
+            if reading_data && pair.code == XDATA_APPLICATIONNAME {
+                common.apply_individual_pair(&pair, iter)?;
+            } else if reading_data {
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
@@ -1462,9 +1465,21 @@ impl Object {
 
                 match pair.code {
                     100 => {
+                        // value should be "AcDbXrecord", some dxf files still need to keep the object read
                         reading_data = true;
-                        continue;
-                    } // value should be "AcDbXrecord", some dxf files still need to keep the object read
+                        match iter.next() {
+                            Some(Ok(pair @ CodePair { code: 280, .. })) => {
+                                xr.duplicate_record_handling = enum_from_number!(
+                                    DictionaryDuplicateRecordHandling,
+                                    NotApplicable,
+                                    from_i16,
+                                    pair.assert_i16()?
+                                );
+                            }
+                            Some(pair) => iter.put_back(pair),
+                            None => (),
+                        }
+                    }
                     5 | 105 => (), // these codes aren't allowed here
                     _ => {
                         xr.data_pairs.push(pair);
-- 
2.43.0


From 96c5038a450b1767768adb1ed049b7130096d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 26/38] fix: write the dates of a SUNSTUDY as they are read and
 its hours with the type of their code

---
 src/object.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 77a992c..61f3b45 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,13 +2,12 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
 
 use chrono::Duration;
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1328,9 +1327,9 @@ impl Object {
                         match julian_day {
                             Some(jd) => {
                                 let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
-                                ss.dates.push(date);
+                                let seconds = Duration::seconds(i64::from(pair.assert_i32()?));
+                                ss.dates
+                                    .push(date.checked_add_signed(seconds).unwrap_or(date));
                                 julian_day = None;
                             }
                             None => {
@@ -1622,7 +1621,10 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
-                    pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    let date = as_double_local(*item);
+                    let seconds = (date.fract() * 24.0 * 60.0 * 60.0).round();
+                    pairs.push(CodePair::new_i32(90, date as i32));
+                    pairs.push(CodePair::new_i32(90, seconds as i32));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
@@ -1630,7 +1632,7 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From 00a550169c83dbe1fe8e749624a3f0be3af8abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:55 +0000
Subject: [PATCH 27/38] fix: read the matrices of a SPATIAL_FILTER in the order
 they are written

---
 src/object.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 61f3b45..87cdb1f 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1218,23 +1218,24 @@ impl Object {
                     } else {
                         matrix_list.push(pair.assert_f64()?);
                         if matrix_list.len() == 12 {
+                            // same order as `TransformationMatrix::values_row_major_4x3()`
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
                                 0.0,
+                                0.0,
+                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From 920b10b0445a6defc46f06697f54c0a4944147d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:20 +0000
Subject: [PATCH 28/38] fix: read every cell of a DATATABLE and don't panic if
 counts and cells don't match

---
 src/object.rs | 76 +++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 87cdb1f..3931c78 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,6 +62,12 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
+            if self.values.len() <= row {
+                self.values.resize(row + 1, vec![]);
+            }
+            if self.values[row].len() <= col {
+                self.values[row].resize(col + 1, None);
+            }
             self.values[row][col] = Some(val);
         }
     }
@@ -322,10 +328,9 @@ impl Object {
     ) -> DxfResult<bool> {
         let mut read_column_count = false;
         let mut read_row_count = false;
-        let mut _current_column_code = 0;
         let mut current_column = 0;
         let mut current_row = 0;
-        let mut created_table = false;
+        let mut seen_column = false;
         let mut current_2d_point = Point::origin();
         let mut current_3d_point = Point::origin();
 
@@ -339,11 +344,11 @@ impl Object {
                     data.field = pair.assert_i16()?;
                 }
                 90 => {
-                    data.column_count = pair.assert_i32()? as usize;
+                    data.column_count = pair.assert_i32()?.max(0) as usize;
                     read_column_count = true;
                 }
                 91 => {
-                    data.row_count = pair.assert_i32()? as usize;
+                    data.row_count = pair.assert_i32()?.max(0) as usize;
                     read_row_count = true;
                 }
 
@@ -352,8 +357,11 @@ impl Object {
                     data.column_names.push(pair.assert_string()?);
                 }
                 92 => {
-                    _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    // the column's code doesn't matter, each value has its own
+                    if seen_column {
+                        current_column += 1;
+                    }
+                    seen_column = true;
                     current_row = 0;
                 }
 
@@ -364,6 +372,7 @@ impl Object {
                         current_column,
                         DataTableValue::Str(pair.assert_string()?),
                     );
+                    current_row += 1;
                 }
                 40 => {
                     data.set_value(
@@ -371,6 +380,7 @@ impl Object {
                         current_column,
                         DataTableValue::Double(pair.assert_f64()?),
                     );
+                    current_row += 1;
                 }
                 71 => {
                     data.set_value(
@@ -378,6 +388,7 @@ impl Object {
                         current_column,
                         DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
                     );
+                    current_row += 1;
                 }
                 93 => {
                     data.set_value(
@@ -385,6 +396,7 @@ impl Object {
                         current_column,
                         DataTableValue::Integer(pair.assert_i32()?),
                     );
+                    current_row += 1;
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -399,6 +411,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point2D(current_2d_point.clone()),
                     );
+                    current_row += 1;
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -414,6 +427,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point3D(current_3d_point.clone()),
                     );
+                    current_row += 1;
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
@@ -423,6 +437,7 @@ impl Object {
                             current_column,
                             DataTableValue::Handle(pair.as_handle()?),
                         );
+                        current_row += 1;
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -432,16 +447,6 @@ impl Object {
                     common.apply_individual_pair(&pair, iter)?;
                 }
             }
-
-            if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
-                }
-                created_table = true;
-            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1510,40 +1515,41 @@ impl Object {
                 pairs.push(CodePair::new_i32(90, data.column_count as i32));
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
-                for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
-                        Some(DataTableValue::Boolean(_)) => Some(71),
-                        Some(DataTableValue::Integer(_)) => Some(93),
-                        Some(DataTableValue::Double(_)) => Some(40),
-                        Some(DataTableValue::Str(_)) => Some(3),
-                        Some(DataTableValue::Point2D(_)) => Some(10),
-                        Some(DataTableValue::Point3D(_)) => Some(11),
-                        Some(DataTableValue::Handle(_)) => Some(331),
-                        None => None,
-                    };
+                for col in 0..data.column_count.min(data.column_names.len()) {
+                    let column_code =
+                        match data.values.first().and_then(|row| row.get(col)?.as_ref()) {
+                            Some(DataTableValue::Boolean(_)) => Some(71),
+                            Some(DataTableValue::Integer(_)) => Some(93),
+                            Some(DataTableValue::Double(_)) => Some(40),
+                            Some(DataTableValue::Str(_)) => Some(3),
+                            Some(DataTableValue::Point2D(_)) => Some(10),
+                            Some(DataTableValue::Point3D(_)) => Some(11),
+                            Some(DataTableValue::Handle(_)) => Some(331),
+                            None => None,
+                        };
                     if let Some(column_code) = column_code {
                         pairs.push(CodePair::new_i32(92, column_code));
                         pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
+                        for row in data.values.iter().take(data.row_count) {
+                            match row.get(col).and_then(Option::as_ref) {
                                 Some(DataTableValue::Boolean(val)) => {
-                                    pairs.push(CodePair::new_i16(71, as_i16(val)));
+                                    pairs.push(CodePair::new_i16(71, as_i16(*val)));
                                 }
                                 Some(DataTableValue::Integer(val)) => {
-                                    pairs.push(CodePair::new_i32(93, val));
+                                    pairs.push(CodePair::new_i32(93, *val));
                                 }
                                 Some(DataTableValue::Double(val)) => {
-                                    pairs.push(CodePair::new_f64(40, val));
+                                    pairs.push(CodePair::new_f64(40, *val));
                                 }
-                                Some(DataTableValue::Str(ref val)) => {
+                                Some(DataTableValue::Str(val)) => {
                                     pairs.push(CodePair::new_string(3, val));
                                 }
-                                Some(DataTableValue::Point2D(ref val)) => {
+                                Some(DataTableValue::Point2D(val)) => {
                                     pairs.push(CodePair::new_f64(10, val.x));
                                     pairs.push(CodePair::new_f64(20, val.y));
                                     pairs.push(CodePair::new_f64(30, val.z));
                                 }
-                                Some(DataTableValue::Point3D(ref val)) => {
+                                Some(DataTableValue::Point3D(val)) => {
                                     pairs.push(CodePair::new_f64(11, val.x));
                                     pairs.push(CodePair::new_f64(21, val.y));
                                     pairs.push(CodePair::new_f64(31, val.z));
-- 
2.43.0


From d17d743c14201b28f39b56b4231c4c9e46cc9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 29/38] fix: read each SectionTypeSettings on its own and don't
 loop forever on what follows the last one

---
 src/section_type_settings.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..d276c20 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -30,14 +30,14 @@ impl Default for SectionTypeSettings {
 // internal visibility only
 impl SectionTypeSettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionTypeSettings>> {
-        // check the first pair and only continue if it's not 0
+        // check the first pair and only continue if it can be part of these settings
         match iter.next() {
-            Some(Ok(pair @ CodePair { code: 0, .. })) => {
-                iter.put_back(Ok(pair));
-                return Ok(None);
-            }
             Some(Ok(pair)) => {
+                let is_settings_pair = matches!(pair.code, 1 | 2 | 90 | 91 | 92 | 93 | 330 | 331);
                 iter.put_back(Ok(pair));
+                if !is_settings_pair {
+                    return Ok(None);
+                }
             }
             Some(Err(e)) => return Err(e),
             None => return Ok(None),
@@ -65,7 +65,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From f1ae87440833dfa72737e160946ee3ae21cb7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:35 +0000
Subject: [PATCH 30/38] fix: don't lose the object after a TABLESTYLE

---
 src/table_cell_style.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..c738fe7 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,10 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 9a3ea0064a3646b48732b1e93f3af063fb51593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:38 +0000
Subject: [PATCH 31/38] fix: report an error instead of exhausting the stack on
 deeply nested groups

---
 src/extension_data.rs | 17 ++++++++++++++++-
 src/x_data.rs         | 16 +++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..3dc5cb8 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -4,6 +4,9 @@ use crate::code_pair_put_back::CodePairPutBack;
 
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
+/// Groups nested deeper than this are an error so that a file can't exhaust the stack.
+const EXTENSION_DATA_MAX_DEPTH: usize = 128;
+
 /// Represents an application name and a collection of extension group data in the form of `CodePair`s.
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -26,6 +29,17 @@ impl ExtensionGroup {
         iter: &mut CodePairPutBack,
         offset: usize,
     ) -> DxfResult<ExtensionGroup> {
+        ExtensionGroup::read_group_at_depth(application_name, iter, offset, 0)
+    }
+    fn read_group_at_depth(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        if depth >= EXTENSION_DATA_MAX_DEPTH {
+            return Err(DxfError::ParseError(offset));
+        }
         if !application_name.starts_with('{') {
             return Err(DxfError::ParseError(offset));
         }
@@ -46,7 +60,8 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    let sub_group =
+                        ExtensionGroup::read_group_at_depth(name, iter, pair.offset, depth + 1)?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..a1e5052 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -20,6 +20,9 @@ const XDATA_SCALEFACTOR: i32 = 1042;
 const XDATA_INTEGER: i32 = 1070;
 const XDATA_LONG: i32 = 1071;
 
+/// Control groups nested deeper than this are an error so that a file can't exhaust the stack.
+const XDATA_MAX_GROUP_DEPTH: usize = 128;
+
 /// Represents an application name and a collection of extended data.
 #[derive(Clone, Debug)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -72,7 +75,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -91,10 +94,17 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= XDATA_MAX_GROUP_DEPTH {
+                    return Err(DxfError::ParseError(pair.offset));
+                }
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -115,7 +125,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From 9d74446e4f346ffed927550c567a60113a2c988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 32/38] fix: don't overflow on a thumbnail with an invalid
 header size

---
 src/thumbnail.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..0137243 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -75,7 +75,7 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = read_u32(data, FILE_HEADER_LENGTH)? as usize;
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
@@ -83,13 +83,15 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
         )? as usize;
-        palette_color_count * 4 // always 4 bytes: BGRA
+        palette_color_count.saturating_mul(4) // always 4 bytes: BGRA
     } else {
         return Ok(false);
     };
 
     // set the image data offset
-    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
+    let image_data_offset = dib_header_size
+        .saturating_add(FILE_HEADER_LENGTH)
+        .saturating_add(palette_size);
     set_i32(data, IMAGE_DATA_OFFSET_OFFSET, image_data_offset as i32)?;
 
     Ok(true)
-- 
2.43.0


From ad3ec45353022516ac90ac16fa489b847b73c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 33/38] fix: report the end of a DXB file inside of a scale
 factor

---
 src/dxb_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..aad363b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
-- 
2.43.0


From c58f779182ce4a156fd4448ea523591613f9681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 34/38] fix: write the entities of a drawing to DXB even if it
 has blocks, and blocks so that they can be read back

---
 src/dxb_writer.rs | 56 +++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..9edfe3d 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,42 +23,46 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
+        // a block can only be written if there are no other entities
+        let block = match drawing.entities().next() {
+            Some(_) => None,
+            None => drawing.blocks().next(),
+        };
+
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
+        if let Some(block) = block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
             self.write_n(block.base_point.x)?;
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
         let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
         self.write_w(last_color)?;
 
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
-        } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
+        let entities: Vec<&Entity> = match block {
+            Some(block) => block.entities.iter().collect(),
+            None => drawing.entities().collect(),
+        };
+        let groups = entities.into_iter().chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
                     }
-                    self.write_entity(entity)?;
                 }
+                self.write_entity(entity)?;
             }
         }
 
@@ -66,12 +70,6 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
-        }
-        Ok(())
-    }
     fn write_entity(&mut self, entity: &Entity) -> DxfResult<()> {
         match &entity.specific {
             EntityType::Arc(ref arc) => {
-- 
2.43.0


From ffa615b4a6439fa622462008777b4161cbebe8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 35/38] fix: write the bulge and widths of a vertex to DXB

---
 src/dxb_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index 9edfe3d..bed8b2a 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -195,6 +195,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?;
+        }
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From c6f95b0eea6cd43fbb89386d76957f5057caba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 36/38] fix: dimensions of files without subclass markers
 (before R13) were dropped by the reader

---
 src/entity.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 6977539..a29ef81 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -234,6 +234,35 @@ impl Vertex {
 //                                                                    EntityType
 //------------------------------------------------------------------------------
 impl EntityType {
+    fn from_dimension_base(dimension_base: DimensionBase) -> Option<EntityType> {
+        match dimension_base.dimension_type {
+            DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned => {
+                Some(EntityType::RotatedDimension(RotatedDimension {
+                    dimension_base,
+                    ..Default::default()
+                }))
+            }
+            DimensionType::Radius => Some(EntityType::RadialDimension(RadialDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Diameter => Some(EntityType::DiameterDimension(DiameterDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::AngularThreePoint => Some(EntityType::AngularThreePointDimension(
+                AngularThreePointDimension {
+                    dimension_base,
+                    ..Default::default()
+                },
+            )),
+            DimensionType::Ordinate => Some(EntityType::OrdinateDimension(OrdinateDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Angular => None, // not supported
+        }
+    }
     fn apply_dimension_code_pair(&mut self, pair: &CodePair) -> DxfResult<bool> {
         match *self {
             EntityType::RotatedDimension(ref mut dim) => match pair.code {
@@ -423,6 +452,10 @@ impl Entity {
                             let mut common = EntityCommon::default();
                             let mut dimension_entity: Option<EntityType> = None;
                             let mut dimension_base = DimensionBase::default();
+                            // before R13 there are no subclass markers and only the dimension type says which values
+                            // these are
+                            let mut has_subclass_marker = false;
+                            let mut unclaimed_pairs = vec![];
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -533,6 +566,7 @@ impl Entity {
                                                         );
                                                     }
                                                     100 => {
+                                                        has_subclass_marker = true;
                                                         match &*pair.assert_string()? {
                                                             "AcDbAlignedDimension" => {
                                                                 dimension_entity = Some(
@@ -591,6 +625,7 @@ impl Entity {
                                                     _ => {
                                                         common
                                                             .apply_individual_pair(&pair, iter)?;
+                                                        unclaimed_pairs.push(pair);
                                                     }
                                                 }
                                             }
@@ -601,6 +636,15 @@ impl Entity {
                                 }
                             }
 
+                            if dimension_entity.is_none() && !has_subclass_marker {
+                                dimension_entity = EntityType::from_dimension_base(dimension_base);
+                                if let Some(ref mut dim) = dimension_entity {
+                                    for pair in &unclaimed_pairs {
+                                        dim.apply_dimension_code_pair(pair)?;
+                                    }
+                                }
+                            }
+
                             match dimension_entity {
                                 Some(dim) => {
                                     return Ok(Some(Entity {
-- 
2.43.0


From a8b08ff9c5e79fb6da69044169f3e66919b832af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:53 +0000
Subject: [PATCH 37/38] fix: a second Drawing::normalize changed the view port
 that the first one added

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index ee60aef..3701541 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -479,13 +479,13 @@ impl Drawing {
         self.normalize_block_records();
         self.normalize_layers();
         self.normalize_text_styles();
+        self.ensure_view_ports(); // an added view port needs to be normalized, too
         self.normalize_view_ports();
         self.normalize_views();
         self.ensure_dimension_styles();
         self.ensure_layers();
         self.ensure_line_types();
         self.ensure_text_styles();
-        self.ensure_view_ports();
         self.ensure_ucs();
 
         self.__app_ids.sort_by(|a, b| a.name.cmp(&b.name));
-- 
2.43.0


From 0428112dbff640e4c5cc84ff3100cfffa7269c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:45 +0000
Subject: [PATCH 38/38] fix: an entity copied from the drawing shared the
 handles of its vertices or attributes with the original

---
 src/drawing.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index 3701541..540addc 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -396,6 +396,7 @@ impl Drawing {
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
         for ent in &mut block.entities {
+            Drawing::clear_copied_child_handles(ent);
             ent.common.handle = Handle::empty();
         }
         self.add_block_no_handle_set(block)
@@ -414,6 +415,7 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
+        Drawing::clear_copied_child_handles(&mut entity);
         entity.common.handle = self.next_handle();
         match entity.specific {
             EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
@@ -670,6 +672,27 @@ impl Drawing {
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
+    /// Marks each child of an entity that was copied from a drawing to get its own handle.
+    fn clear_copied_child_handles(entity: &mut Entity) {
+        if entity.common.handle.is_empty() {
+            return; // never was part of a drawing
+        }
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => {
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    a.1 = AUTO_REPLACE_HANDLE;
+                }
+                ins.__seqend_handle = Handle::empty();
+            }
+            EntityType::Polyline(ref mut poly) => {
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    v.1 = AUTO_REPLACE_HANDLE;
+                }
+                poly.__seqend_handle = Handle::empty();
+            }
+            _ => (),
+        }
+    }
     /// Assigns a handle to each child that was read from a file without one.
     fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
         match entity.specific {
-- 
2.43.0

