From de5f3659e7b89066707a981ccc191bbc16af1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 01/43] fix: from_reader_strict misses trailing bytes that are
 not buffered yet

---
 protocol/bin-prot/src/de.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..b944356 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,9 +68,15 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
-        0 => Ok(value),
-        unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
+    // Bytes that have not been buffered yet are unconsumed too, so ask the reader for more
+    // instead of only looking at what is left in the buffer.
+    loop {
+        match de.rdr.fill_buf() {
+            Ok([]) => return Ok(value),
+            Ok(unconsumed) => return Err(Error::StreamNotFullyConsumed(unconsumed.len())),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
     }
 }
 
-- 
2.43.0


From 9fb6f65b8e91314a9689b3596243195f57196733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 02/43] fix: floats and polyvar tags are cut off by writers
 that do short writes

---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From 5e5f910b3bd809b2dca44f2fa209189305df4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 03/43] fix: length prefix of a string or byte sequence
 allocates without bound

---
 protocol/bin-prot/src/read_ext.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..76ec2fc 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,14 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // The length comes from untrusted input. Let the buffer grow with the bytes that are
+        // really there instead of allocating whatever the prefix claims.
+        let mut buf = Vec::new();
+        io::Read::read_to_end(&mut io::Read::take(&mut *self, len), &mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 2c947163e89c3ca871b4b6421f2826ee5fe4e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 04/43] fix: unknown sum variant index panics the loose
 deserializer

---
 protocol/bin-prot/src/loose_deserializer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..ca7b8cd 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,14 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .into_iter()
+                            .nth(index as usize)
+                            .ok_or(Error::LayoutIteratorError)?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 045cf3c50faf7c9494310c5188029218685b2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 05/43] fix: loosely typed polyvars with a tag below 256 are
 written as a sum index

---
 protocol/bin-prot/src/ser.rs       | 6 ++++++
 protocol/bin-prot/src/value/ser.rs | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 2fabc4c..0b949a2 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -9,6 +9,10 @@ use crate::WriteBinProtExt;
 use serde::ser;
 use serde::Serialize;
 
+/// Enum name that marks a loosely typed polyvar, whose variant index is its tag.
+/// Not a valid Rust identifier, so it cannot clash with the name of a type.
+pub(crate) const VALUE_POLYVAR: &str = "$bin_prot::Value::Polyvar";
+
 /// Serializer for writing BinProt bytes to a writer
 pub struct Serializer<W> {
     writer: W,
@@ -43,6 +47,8 @@ where
         if name == "Polyvar" {
             self.writer
                 .bin_write_polyvar_tag(caml_hash_variant(variant))?;
+        } else if name == VALUE_POLYVAR {
+            self.writer.bin_write_polyvar_tag(index)?;
         } else if let Ok(b) = check_variant_index(index) {
             // it is a sum variant
             self.writer.bin_write_variant_index(b)?;
diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..a51fd43 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::ser::VALUE_POLYVAR;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -53,7 +54,7 @@ impl Serialize for Value {
                 name: _,
                 ref tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => serializer.serialize_newtype_variant(VALUE_POLYVAR, *tag, "", value), // polyvar tag
             Value::List(ref v) => v.serialize(serializer),
         }
     }
-- 
2.43.0


From ff1d2319e1c285f0c9d32eced576afaf4fac8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 06/43] fix: non-ASCII polyvar variants shift the index of the
 variants after them

---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index b944356..984967f 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -402,8 +402,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From e6cf58f5d6e0d75ad736fc81306d9d8b540c3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 07/43] fix: chars outside the single byte range are silently
 truncated

---
 protocol/bin-prot/src/write_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..024bd58 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,9 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let byte =
+            u8::try_from(c).map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        self.write_u8(byte)?;
         Ok(1)
     }
 
-- 
2.43.0


From 9cd9aca0c3c51e2971236c66de32934a8ae5df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 08/43] fix: 0x80 is not a valid first byte of an integer

---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 76ec2fc..4a7e62b 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From fd9056c91d2a112d88457476c769cdf2450fc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 09/43] fix: list length allocates layout rules without bound

---
 .../bin-prot/src/value/layout/traverse.rs     | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..fb5ca28 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,8 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    // regular stack to implement the DFS, each rule with the number of times it repeats
+    stack: Vec<(BinProtRule, usize)>,
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +32,7 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = self.pop();
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -41,11 +42,10 @@ impl Iterator for BinProtRuleIterator {
                         // then call repeat the required number of times
                     }
                     BinProtRule::Record(mut rules) => {
-                        self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                        self.push(rules.drain(0..).map(|field| field.field_rule).rev());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.push(rules.drain(0..).rev());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -59,7 +59,7 @@ impl Iterator for BinProtRuleIterator {
                             unimplemented!();
                         }
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.push([*payload.ref_rule]);
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -90,13 +90,26 @@ impl Iterator for BinProtRuleIterator {
 
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
-    pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+    pub fn push(&mut self, rules: impl IntoIterator<Item = BinProtRule>) {
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        // n can come from untrusted input so don't store the rule n times
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
+    }
+
+    fn pop(&mut self) -> Option<BinProtRule> {
+        match self.stack.last_mut() {
+            Some((rule, n)) if *n > 1 => {
+                *n -= 1;
+                Some(rule.clone())
+            }
+            _ => self.stack.pop().map(|(rule, _)| rule),
+        }
     }
 }
 
@@ -106,7 +119,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From dc108789877e63382e2d22f62c9b7ae36df5c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:03 +0000
Subject: [PATCH 10/43] fix: u64 values above i64::MAX cannot be read back

---
 protocol/bin-prot/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 984967f..bb049fe 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -173,7 +173,8 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        visitor.visit_u64(self.rdr.bin_read_integer()?)
+        // The serializer writes a u64 as the i64 with the same bits, so undo that cast
+        visitor.visit_u64(self.rdr.bin_read_integer::<i64>()? as u64)
     }
 
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 319dea270fe552d5d8594d770d990b3135e8b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:59 +0000
Subject: [PATCH 11/43] fix: polyvar tags that are not OCaml integers are
 accepted

---
 protocol/bin-prot/src/read_ext.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 4a7e62b..44bdbf0 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -113,7 +113,12 @@ pub trait ReadBinProtExt: io::Read {
     fn bin_read_polyvar_tag(&mut self) -> Result<u32> {
         let mut buf = [0_u8; 4];
         self.read_exact(&mut buf)?;
-        Ok(u32::from_le_bytes(buf) >> 1)
+        let tag = u32::from_le_bytes(buf);
+        // the lowest bit of an ocaml native integer is always set
+        if tag & 1 == 0 {
+            return Err(Error::UnknownPolyvarTag(tag));
+        }
+        Ok(tag >> 1)
     }
 
     /// Read a string
-- 
2.43.0


From fbdec31a8590c4bc329ac5760cb866ff49198220 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 12/43] fix: merkle root is stale after a leaf is added to a
 subtree without hash

clear_dirty_hashes stopped at the first ancestor without a cached hash. When
the merger gives empty subtrees no hash, their ancestors keep theirs.
---
 merkle/src/tree_impl.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..f3d4e56 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,8 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            // a node without hash (e.g. of an empty subtree) can have ancestors that do have one
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From c5b9c4a1c03abc7b6c33b9a05988f13ef4398da6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 13/43] fix: depth of the last merkle tree node of a level is
 off by one

The floating point logarithm of 2^29 to base 2 is above 29, so that index
2^29 - 2 was placed at depth 29 instead of 28.
---
 merkle/src/metadata.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..6ed2f3a 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -32,7 +32,13 @@ impl MerkleTreeNodeMetadata {
 }
 
 fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+    let mut index = index;
+    let mut depth = 0;
+    while index > 0 {
+        index = (index - 1) / DEGREE;
+        depth += 1;
+    }
+    depth
 }
 
 fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-- 
2.43.0


From f24224c91fe2611c0d1e178751c934658d1f3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 14/43] fix: merkle proofs of a place the leaf is not at are
 accepted

A peer next to the node but under another parent was taken for its sibling,
so that a proof verified with the index of a neighbour. Proofs with too few
or too many peers panicked.
---
 merkle/src/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..bde576a 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,13 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // the peers lead from the data node to the root
+            let depth = MerkleTreeNodeMetadata::new(self.index, u32::MAX).depth();
+            if self.peer_indices.len() != depth as usize
+                || self.peer_hashes.len() != self.peer_indices.len()
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +163,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // left children have odd indices, right children have even ones
+    if index % 2 == 1 && index.checked_add(1) == Some(sibling_index) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && sibling_index == index - 1 {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From 813447b7bd79b6b60448aed2fa413eb1701014d7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 15/43] fix: merkle proof of the only leaf of a tree panics

---
 merkle/src/tree_impl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index f3d4e56..fa1277a 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -115,6 +115,10 @@ where
             } else {
                 self.variable_height
             };
+            if height_above == 0 {
+                // the only leaf is the root, there is nothing to prove
+                return None;
+            }
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +137,10 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            let mut parent_index = match self.nodes.len() + index {
+                0 => 0,
+                node_index => calculate_parent_index(node_index),
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 2c03de92ed073d4e858070dcc4c37af637ffe27c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 16/43] fix: converting an empty or oversized merkle path to a
 proof panics

---
 merkle/src/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..c23da75 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,11 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        anyhow::ensure!(
+            !self.0.is_empty() && self.0.len() < usize::BITS as usize,
+            "Invalid merkle path length {}",
+            self.0.len()
+        );
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From 6640f0d3fb9e59555f87bd5d270a01030cf57681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 17/43] fix: chain heights and epoch counts at u32::MAX
 overflow

---
 consensus/src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..9077d04 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
-- 
2.43.0


From 7763786534b870981abbf599bf06a194cc62f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 18/43] fix: a chain claiming zero slots per epoch panics
 epoch_slot

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 9077d04..6376d82 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
-- 
2.43.0


From 4444f0e8b4653aa60cb367f490ca49db7351d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 19/43] fix: permissions Both and Proof hash alike

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..1bcbd83 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,7 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary = matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 012c517b279abe92315b80e0e6405cfdfae59c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 20/43] fix: permission to increment the nonce is read from
 editState

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 1bcbd83..ba407b6 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From b6cddf6ae597ec174e428dcd7b68c25a5f351ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 21/43] fix: amounts with more than 9 decimals or above the
 maximum are misread

---
 base/src/numbers.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..b913d6d 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,10 +143,18 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        if r_str.len() > 9 || r_str.starts_with('+') {
+            // more digits than there is precision, or not just digits
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+            MINA_PRECISION
+                .checked_mul(q)
+                .and_then(|q| q.checked_add(r))
+                .map(Amount)
+                .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))
         } else {
             Err(Self::Err::ErrorInvalidFormat(s.to_string()))
         }
-- 
2.43.0


From 943fe1162f331b3d5522131be51ad2bdbd702641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 22/43] fix: text of an empty or truncated memo panics

---
 base/src/user_commands/memo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..fb9846e 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,11 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        let text = match self.0.as_slice() {
+            [_, len, text @ ..] => &text[..text.len().min(*len as usize)],
+            _ => &[],
+        };
+        String::from_utf8_lossy(text).into()
     }
 }
 
-- 
2.43.0


From d3aff605d2388a36483cbd3f8b4641f4736996e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:06 +0000
Subject: [PATCH 23/43] fix: verifying a command of a signer that is no public
 key panics

---
 base/src/user_commands/signed_command/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..0574c9d 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -56,8 +56,11 @@ where
     fn verify(&self, ctx: &mut CTX) -> bool {
         // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer) => ctx.verify(&self.signature, &signer, &self.payload),
+            // not a point of the curve
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From 49158f790d4b1784ce3d09a224e13d9bb1768a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:39 +0000
Subject: [PATCH 24/43] fix: reading a tagged enum from JSON that is no array
 panics

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From df369d6196259968cc60deeb571fac93d4af5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 25/43] fix: the default memo of a command has no bytes

---
 base/src/user_commands/memo.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index fb9846e..a743670 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -9,14 +9,26 @@ use mina_serialization_types_macros::AutoFrom;
 use thiserror::Error;
 
 /// A memo byte strong for a signed command
-#[derive(Clone, Default, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
+#[derive(Clone, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemo)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemoJson)]
 pub struct SignedCommandMemo(pub Vec<u8>);
 
 impl_strconv_via_json!(SignedCommandMemo, SignedCommandMemoJson);
 
+impl Default for SignedCommandMemo {
+    /// The memo of an empty text
+    fn default() -> Self {
+        let mut v = vec![0; Self::LEN];
+        v[0] = 1;
+        Self(v)
+    }
+}
+
 impl SignedCommandMemo {
+    /// Number of bytes of a memo: tag, length and 32 bytes of content
+    pub const LEN: usize = 34;
+
     /// Try build from text
     pub fn try_from_text(s: impl AsRef<[u8]>) -> Result<Self, SignedCommandMemoError> {
         const DIGEST_LEN: usize = 32;
-- 
2.43.0


From 4988fc39e38be4e44e098e5248686f687965107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 26/43] fix: a command with a memo of another length has the
 signature of a different command

---
 base/src/user_commands/signed_command/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index 0574c9d..c738bef 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,6 +54,11 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
+        // the bytes of the memo are signed without their number: with a memo of another length
+        // a command could have the signature of a different one
+        if self.payload.common.memo.0.len() != SignedCommandMemo::LEN {
+            return false;
+        }
         // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
         match PubKey::from_address(&self.signer.into_address()) {
-- 
2.43.0


From 42135c1d2b601ef502e7c0fbaf0f21fa70523140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 27/43] fix: reading a decimal amount from json overflows and
 misplaces long fractions

---
 protocol/serialization-types/src/common.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..735b56f 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,17 +119,21 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        // ensure there isn't more to parse as that is undefined, nor more
+        // digits than there is precision, nor anything but digits
+        if iter.next().is_some() || r_str.len() > 9 || r_str.starts_with('+') {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        if iter.next().is_none() {
-            // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
-        } else {
-            Err(<D::Error as serde::de::Error>::custom(format!(
-                "Invalid string: {s}"
-            )))
-        }
+        MINA_PRECISION
+            .checked_mul(q)
+            .and_then(|q| q.checked_add(r))
+            .map(Self)
+            .ok_or_else(|| <D::Error as serde::de::Error>::custom(format!("Invalid string: {s}")))
     }
 }
 
-- 
2.43.0


From ae221da98929d587b21a3358a55a0a9197876dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 28/43] fix: an empty string read as a char panics, a char
 above 127 is written as invalid text

---
 protocol/serialization-types/src/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 735b56f..9b48cc6 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -195,8 +195,7 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
-        serializer.serialize_str(&s)
+        serializer.serialize_char(self.0.into())
     }
 }
 
@@ -205,8 +204,10 @@ impl<'de> Deserialize<'de> for CharJson {
     where
         D: Deserializer<'de>,
     {
-        let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        let c = char::deserialize(deserializer)?;
+        u8::try_from(u32::from(c))
+            .map(Self)
+            .map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From 70e85acf40a9d8fde64adaab978f7919715567bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:51 +0000
Subject: [PATCH 29/43] fix: a field element in hex that is not 32 bytes panics

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..bedaddd 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -138,9 +138,8 @@ impl FieldElementJson {
     /// Convert from hex str
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
-        let bytes = hex::decode(s)?;
         let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        hex::decode_to_slice(s, &mut b32)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From dfea05a19446156032b543aa85c28ea20ec68c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:06 +0000
Subject: [PATCH 30/43] fix: a decimal number too large for a field element
 panics

---
 proof-systems-shim/src/fp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..75a4386 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,10 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        let fp = Fp::from_repr(big256).ok_or_else(|| {
+            <D::Error as serde::de::Error>::custom("Number is not below the field modulus")
+        })?;
+        Ok(Self(fp))
     }
 }
 
@@ -42,8 +45,9 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    Fp::from_repr(big256)
+        .ok_or_else(|| anyhow::Error::msg("Number is not below the field modulus"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 94cd260b981bc7ae3936322a44f232dc8737af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 31/43] fix: the length in the base58 form of a vrf output is
 ignored on reading and wraps on writing

---
 .../serialization-types/src/consensus_state.rs     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/consensus_state.rs b/protocol/serialization-types/src/consensus_state.rs
index 9ac76fd..221e447 100644
--- a/protocol/serialization-types/src/consensus_state.rs
+++ b/protocol/serialization-types/src/consensus_state.rs
@@ -61,7 +61,9 @@ impl Serialize for VrfOutputTruncatedBase58Json {
         S: Serializer,
     {
         let mut input = Vec::with_capacity(self.0.len() + 1);
-        input.push(self.0.len() as u8);
+        input.push(
+            u8::try_from(self.0.len()).map_err(<S::Error as serde::ser::Error>::custom)?,
+        );
         input.extend_from_slice(self.0.as_slice());
         let s = bs58::encode(input.as_slice())
             .with_check_version(version_bytes::VRF_TRUNCATED_OUTPUT)
@@ -80,7 +82,15 @@ impl<'de> Deserialize<'de> for VrfOutputTruncatedBase58Json {
             .with_check(Some(version_bytes::VRF_TRUNCATED_OUTPUT))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(decoded.into_iter().skip(2).collect()))
+        // version byte, length, then that many bytes
+        match decoded.as_slice() {
+            [_, len, output @ ..] if output.len() == usize::from(*len) => {
+                Ok(Self(output.to_vec()))
+            }
+            _ => Err(<D::Error as serde::de::Error>::custom(
+                "Length of the vrf output does not match",
+            )),
+        }
     }
 }
 
-- 
2.43.0


From 30a6f1a70c8284fe6fe3fe7a0cc787135648a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 32/43] fix: an account with incomplete or malformed timing
 data is read as untimed

---
 base/src/account/timing.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/base/src/account/timing.rs b/base/src/account/timing.rs
index 3bcad69..c7bdf2b 100644
--- a/base/src/account/timing.rs
+++ b/base/src/account/timing.rs
@@ -96,9 +96,20 @@ impl FromGraphQLJson for Timing {
     where
         Self: Sized,
     {
-        Ok(match TimedData::from_graphql_json(json) {
-            Ok(data) => Self::Timed(data),
-            _ => Self::Untimed,
+        // an untimed account has no timing data at all, anything else has to be complete
+        let is_untimed = [
+            "initialMinimumBalance",
+            "cliffTime",
+            "cliffAmount",
+            "vestingPeriod",
+            "vestingIncrement",
+        ]
+        .iter()
+        .all(|key| json[*key].is_null());
+        Ok(if is_untimed {
+            Self::Untimed
+        } else {
+            Self::Timed(TimedData::from_graphql_json(json)?)
         })
     }
 }
-- 
2.43.0


From db284a9a2126b68d6b144647a54a7458c2969d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 33/43] fix: a wallet whose salt is longer than 16 bytes can be
 read but not written back

---
 secrets/src/secret_box/types_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..50f46ff 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -47,8 +47,8 @@ impl TryFrom<SecretBox> for SecretBoxJson {
     type Error = Error;
     fn try_from(sb: SecretBox) -> Result<SecretBoxJson, Self::Error> {
         let pwsalt = {
-            // 16 is sufficient here
-            let mut buf = [0; 16];
+            // A salt string holds at most 48 bytes
+            let mut buf = [0; 48];
             let bytes = sb
                 .pwsalt
                 .b64_decode(&mut buf)
-- 
2.43.0


From 525963eb991b22e064d4a295fe5525ff56cc6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 34/43] fix: an operations limit outside 32 bits is silently
 truncated on reading a wallet

---
 secrets/src/secret_box/types_impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 50f46ff..7441835 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,9 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: json.pwdiff[1]
+                .try_into()
+                .map_err(|e| Error::Argon2Error(format!("{}", e)))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
-- 
2.43.0


From f511a20b91d277ae29e737d75372c7190d59d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 35/43] fix: a memory limit outside 32 bits of kibibytes is
 silently truncated when a wallet is opened

---
 secrets/src/secret_box/types_impls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7441835..2d2b04e 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -86,9 +86,12 @@ impl TryInto<serde_json::Value> for SecretBox {
 
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        let m_cost = (self.pw_mem_limit_bytes / 1024)
+            .try_into()
+            .map_err(|e: std::num::TryFromIntError| Error::Argon2Error(format!("{}", e)))?;
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(m_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From 5d98b78186c4a81568689bfc9904fa7608e8bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 36/43] fix: a wallet whose nonce is not 24 bytes panics when
 it is opened

---
 secrets/src/secret_box/constants.rs   | 1 +
 secrets/src/secret_box/types_impls.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/secrets/src/secret_box/constants.rs b/secrets/src/secret_box/constants.rs
index 5909ec2..88f77a6 100644
--- a/secrets/src/secret_box/constants.rs
+++ b/secrets/src/secret_box/constants.rs
@@ -3,3 +3,4 @@
 
 pub const SECRET_BOX_PRIMITIVE: &str = "xsalsa20poly1305";
 pub const PASSWORD_HASH_PRIMITIVE: &str = "argon2i";
+pub const NONCE_LENGTH: usize = 24;
diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 2d2b04e..c51a128 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -114,6 +114,9 @@ impl SecretBox {
 
     /// Gets raw bytes(little-endian) of the private key from the wallet with a password
     pub fn get_private_key_bytes(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        if self.nonce.len() != NONCE_LENGTH {
+            return Err(Error::AeadError("Invalid nonce length".into()));
+        }
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
-- 
2.43.0


From c6f0681bbc958211013da4bc0f8ac7b8255d66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:47 +0000
Subject: [PATCH 37/43] fix: a wallet that seals no bytes panics when it is
 opened

---
 secrets/src/secret_box/types_impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index c51a128..38f22b1 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -126,6 +126,9 @@ impl SecretBox {
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty private key".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From 865cf490d50213319c474194d0776360aa6ee20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 38/43] fix: the vesting period and increment of a mainnet
 account are read in the wrong order

---
 protocol/serialization-types/src/account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 4b8506f..987a154 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -192,10 +192,10 @@ pub struct TimedData {
     pub cliff_time: BlockTimeV1,
     /// Amount extra available when fully fested
     pub cliff_amount: AmountV1,
-    /// Amount released in each vesting period
-    pub vesting_increment: AmountV1,
     /// Period in whcih allocation is released in chunks
     pub vesting_period: BlockTimeV1,
+    /// Amount released in each vesting period
+    pub vesting_increment: AmountV1,
 }
 
 /// TODO
-- 
2.43.0


From a57e66a878603301b94b2e3428dce969f0ca446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 39/43] fix: every mainnet account is read as disabled: token
 permissions have one version byte and begin with TokenOwned, a balance has
 three

---
 base/src/account/token_permissions.rs       |  1 +
 protocol/serialization-types/src/account.rs | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/base/src/account/token_permissions.rs b/base/src/account/token_permissions.rs
index a7a104c..8db5341 100644
--- a/base/src/account/token_permissions.rs
+++ b/base/src/account/token_permissions.rs
@@ -9,6 +9,7 @@ use proof_systems::{bitvec::prelude::BitVec, ChunkedROInput, ToChunkedROInput};
 /// FIXME: Need to learn exactly what this is..
 #[derive(Clone, Debug, AutoFrom)]
 #[auto_from(mina_serialization_types::account::TokenPermissions)]
+#[auto_from(mina_serialization_types::account::TokenPermissionsLegacy)]
 pub enum TokenPermissions {
     /// Account does not own a token
     NotOwned {
diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 987a154..5ebe4f0 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -22,7 +22,7 @@ pub struct Account {
     /// Permission associated with the given token
     pub token_permissions: TokenPermissionsV1,
     /// Balance of token held by account
-    pub balance: AmountV1,
+    pub balance: Versioned<AmountV1, 1>,
     /// Nonce (incremented with each tx to prevent replay)
     pub nonce: AccountNonceV1,
     /// ?
@@ -90,8 +90,23 @@ pub enum TokenPermissions {
     },
 }
 
+/// Permissions associated with a token, with the variants in the order of mainnet
+#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
+pub enum TokenPermissionsLegacy {
+    /// Account owns the token
+    TokenOwned {
+        /// Disallow creation of new accounts for the token
+        disable_new_accounts: bool,
+    },
+    /// Account doesn't own the token
+    NotOwned {
+        /// Has the account been disabled by the token owner
+        account_disabled: bool,
+    },
+}
+
 ///
-pub type TokenPermissionsV1 = Versioned<Versioned<TokenPermissions, 1>, 1>;
+pub type TokenPermissionsV1 = Versioned<TokenPermissionsLegacy, 1>;
 
 /// Permissions associated with the account
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
-- 
2.43.0


From 2c0dace1bb0971a83844ab3dfe4976a8d9aa7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 40/43] fix: a database error while iterating a genesis ledger
 is taken for its end

---
 ledger/src/rocksdb_genesis_ledger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..b5e1463 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -80,7 +80,7 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
                 if let Ok((k, _)) = r {
                     k.first() == Some(&ACCOUNT_PREFIX)
                 } else {
-                    false
+                    true // Errors are handed on, not taken for the end of the ledger
                 }
             }); // Ensures the iterator stops when the prefix stops matching
 
-- 
2.43.0


From 4cf6da6ff509acf79b6f056433e9e032fb3ac535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:39 +0000
Subject: [PATCH 41/43] fix: a frontier whose best block has length 0 still
 selects chains

Whether the frontier holds a chain was decided by the length the best block
states. A block of length 0 was taken for no chain, and later blocks were
pushed onto it: every block whose height is not 1 was refused for good.
---
 network/src/processor/naive_transition_frontier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/processor/naive_transition_frontier.rs b/network/src/processor/naive_transition_frontier.rs
index e904c8e..5495e8c 100644
--- a/network/src/processor/naive_transition_frontier.rs
+++ b/network/src/processor/naive_transition_frontier.rs
@@ -110,7 +110,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolStateLegacy, MerkleP
     async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
         let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
         anyhow::ensure!(block.verify(&mut ctx), "block verification failure");
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block.protocol_state)?;
         } else {
             let candidate_chains = vec![ProtocolStateChain(vec![block.protocol_state])];
@@ -170,7 +170,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolState, MerkleProofBe
         // TODO: Block verification
         let ProtocolStateWithSparseMerkleLedger(block, proofs) = block;
         let state_hash_of_new_block = block.state_hash_fp();
-        if self.best_chain.length() < 1 {
+        if self.best_chain.top().is_none() {
             self.best_chain.push(block)?;
             self.sparse_merkle_ledger = proofs;
         } else {
-- 
2.43.0


From 8540be15d527361c84f609469017a4108dc7d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 42/43] fix: a layout with rules that cannot be decoded is an
 error, not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs    | 14 +++++++++-----
 protocol/bin-prot/src/value/layout/traverse.rs |  6 ++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index ca7b8cd..bfb65d8 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -65,15 +65,15 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                     Polyvar::Tagged(t) => {
                                         // return the first tagged variant where the tag matches
                                         if t.hash == tag {
-                                            Some((i, t))
+                                            Some(Ok((i, t)))
                                         } else {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => Some(Err(Error::UnimplementedRule)), // don't know how to handle these yet
                                 }
                             })
-                            .ok_or(Error::UnknownPolyvarTag(tag))?;
+                            .unwrap_or(Err(Error::UnknownPolyvarTag(tag)))?;
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant.clone().polyvar_args)]);
@@ -134,7 +134,8 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule =
+                                    rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
@@ -222,7 +223,10 @@ impl<'de, 'a, R: Read> serde::de::EnumAccess<'de> for ValueEnum<'a, R, LooselyTy
             VariantType::Sum(summand) => (
                 summand.index as u8,
                 EnumData::Sum {
-                    index: summand.index.try_into().unwrap(),
+                    index: summand
+                        .index
+                        .try_into()
+                        .map_err(|_| Error::LayoutIteratorError)?,
                     name: summand.ctor_name,
                     len: summand.ctor_args.len(),
                 },
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index fb5ca28..dbd2df4 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -55,9 +55,7 @@ impl Iterator for BinProtRuleIterator {
                         // Option is a special case of a Sum where the None variant contain nothing
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
-                        RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
-                        }
+                        RuleRef::Unresolved(_payload) => {} // nothing to follow, up to the caller to reject
                         RuleRef::Resolved(payload) => {
                             self.push([*payload.ref_rule]);
                             self.current_module_path = Some(payload.source_module_path);
@@ -79,7 +77,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // no traversal is defined for these yet, up to the caller to reject
                 };
                 r
             }
-- 
2.43.0


From 3921e94b806b591627cc8273f6242a90c3425b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 43/43] fix: sub window densities that add up to more than
 u32::MAX overflow

---
 consensus/src/common.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 6376d82..d2b10ce 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -319,8 +319,10 @@ where
             projected_window
         };
 
-        // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        // compute projected window density, the densities are not checked and can be of any size
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0_u32, |sum, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0

