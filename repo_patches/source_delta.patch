From 92e430c48ff6fa5673e40c9e90f20b1c3cbd1eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 01/28] fix: check number range in typify and write numbers of
 any width

Typification accepted numbers which do not fit the primitive type, treated BYTE as a
signed type and UNIT as a number; writing an unsigned 128-bit number panicked.
---
 src/value/encode.rs | 27 ++++++++++++-----
 src/value/typify.rs | 72 +++++++++++++++++++++++++++++++++------------
 2 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..50e3380 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -115,23 +115,22 @@ impl TypeSystem {
             }
             (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                write_le_num(&num.to_le_bytes(), bytes_count, 0, writer)?;
             }
             (StrictVal::Number(StrictNum::BigUint(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                write_le_num(&num.to_le_bytes(), bytes_count, 0, writer)?;
             }
             (StrictVal::Number(StrictNum::Int(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                let filler = if *num < 0 { 0xFF } else { 0 };
+                write_le_num(&num.to_le_bytes(), bytes_count, filler, writer)?;
             }
             (StrictVal::Number(StrictNum::BigInt(num)), Ty::Primitive(prim)) => {
                 let bytes_count = prim.byte_size() as usize;
-                let le_bytes = &num.to_le_bytes()[0..bytes_count];
-                writer.write_all(le_bytes)?;
+                let le_bytes = num.to_le_bytes();
+                let filler = if le_bytes[le_bytes.len() - 1] & 0x80 != 0 { 0xFF } else { 0 };
+                write_le_num(&le_bytes, bytes_count, filler, writer)?;
             }
 
             (StrictVal::String(s), Ty::UnicodeChar) => {
@@ -237,6 +236,18 @@ impl TypeSystem {
     }
 }
 
+/// Writes `bytes_count` of the little-endian number, extending it if the type is wider.
+fn write_le_num(
+    le_bytes: &[u8],
+    bytes_count: usize,
+    filler: u8,
+    writer: &mut impl io::Write,
+) -> Result<(), io::Error> {
+    let len = bytes_count.min(le_bytes.len());
+    writer.write_all(&le_bytes[..len])?;
+    writer.write_all(&vec![filler; bytes_count - len])
+}
+
 trait SizingExt {
     fn byte_size(&self) -> usize;
 }
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..371ef6d 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -117,13 +117,40 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+
+    /// Detects whether a number can be represented with the primitive type without a data loss.
+    fn can_hold(&self, num: &StrictNum) -> bool;
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    fn is_small_unsigned(&self) -> bool {
+        *self == Primitive::BYTE || (self.into_code() > 0 && self.into_code() <= 8)
+    }
+    fn is_large_unsigned(&self) -> bool { self.into_code() > 8 && self.into_code() < 0x40 }
+    fn is_small_signed(&self) -> bool { self.into_code() > 0x40 && self.into_code() <= 0x48 }
+    fn is_large_signed(&self) -> bool { self.into_code() > 0x48 && self.into_code() < 0x80 }
+
+    fn can_hold(&self, num: &StrictNum) -> bool {
+        let size = self.byte_size() as usize;
+        let filler_since = |bytes: &[u8], size: usize, filler: u8| {
+            bytes.iter().skip(size).all(|byte| *byte == filler)
+        };
+        match num {
+            StrictNum::Uint(num) => filler_since(&num.to_le_bytes(), size, 0),
+            StrictNum::BigUint(num) => filler_since(&num.to_le_bytes(), size, 0),
+            StrictNum::Int(num) => {
+                let shift = 64u32.saturating_sub(size as u32 * 8);
+                (num << shift) >> shift == *num
+            }
+            StrictNum::BigInt(num) => {
+                let bytes = num.to_le_bytes();
+                match bytes.get(size - 1) {
+                    Some(byte) if byte & 0x80 != 0 => filler_since(&bytes, size, 0xFF),
+                    _ => filler_since(&bytes, size, 0),
+                }
+            }
+        }
+    }
 }
 
 impl SymbolicSys {
@@ -170,30 +197,37 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
-            (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
-                if prim.is_small_unsigned() =>
+            (StrictVal::Number(num @ StrictNum::Uint(_)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() && prim.can_hold(&num) =>
+            {
+                StrictVal::Number(num)
+            }
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.can_hold(&StrictNum::Uint(num)) =>
             {
-                val
+                StrictVal::Number(StrictNum::BigUint(num.into()))
             }
-            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
-                if prim.is_small_signed() && (val & 0x8000_0000_0000_0000) == 0 =>
+            (StrictVal::Number(StrictNum::Uint(num)), Ty::Primitive(prim))
+                if prim.is_small_signed()
+                    && num <= i64::MAX as u64
+                    && prim.can_hold(&StrictNum::Int(num as i64)) =>
             {
-                StrictVal::Number(StrictNum::Int(val as i64))
+                StrictVal::Number(StrictNum::Int(num as i64))
             }
-            (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
-                if prim.is_large_unsigned() =>
+            (StrictVal::Number(num @ StrictNum::BigUint(_)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() && prim.can_hold(&num) =>
             {
-                val
+                StrictVal::Number(num)
             }
-            (val @ StrictVal::Number(StrictNum::Int(_)), Ty::Primitive(prim))
-                if prim.is_small_signed() =>
+            (StrictVal::Number(num @ StrictNum::Int(_)), Ty::Primitive(prim))
+                if prim.is_small_signed() && prim.can_hold(&num) =>
             {
-                val
+                StrictVal::Number(num)
             }
-            (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
-                if prim.is_large_signed() =>
+            (StrictVal::Number(num @ StrictNum::BigInt(_)), Ty::Primitive(prim))
+                if prim.is_large_signed() && prim.can_hold(&num) =>
             {
-                val
+                StrictVal::Number(num)
             }
 
             // Collection bounds check:
-- 
2.43.0


From 93d61b3c61209dd6d15ff89aa87f683fd86547f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 02/28] fix: check length and item types of arrays in typify

Arrays shorter than the type requires were accepted, items of an array were never checked,
and a list could not be written as an array.
---
 src/value/encode.rs |  6 ++++++
 src/value/typify.rs | 43 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 50e3380..c150353 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -145,6 +145,12 @@ impl TypeSystem {
                 debug_assert_eq!(s.len(), *len as usize);
                 writer.write_all(s.as_bytes())?;
             }
+            (StrictVal::List(items), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(items.len(), *len as usize);
+                for item in items {
+                    self.strict_write_val(item, *sem_id, writer)?;
+                }
+            }
 
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
diff --git a/src/value/typify.rs b/src/value/typify.rs
index 371ef6d..4d6a273 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -166,6 +166,21 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    fn is_enum(&self, sem_id: SemId) -> bool { matches!(self.find(sem_id), Some(Ty::Enum(_))) }
+
+    fn typify_items(
+        &self,
+        items: impl IntoIterator<Item = StrictVal>,
+        sem_id: SemId,
+    ) -> Result<Vec<StrictVal>, Error> {
+        items.into_iter().map(|item| self.typify(item, sem_id).map(TypedVal::unbox)).collect()
+    }
+
+    /// Converts characters of a string into values of a character enum.
+    fn typify_chars(&self, s: &str, sem_id: SemId) -> Result<Vec<StrictVal>, Error> {
+        self.typify_items(s.bytes().map(StrictVal::enumer), sem_id)
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -232,19 +247,14 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
-            {
-                return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
-            }
-            (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -274,10 +284,21 @@ impl TypeSystem {
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
-                StrictVal::String(s)
+            (val @ StrictVal::String(_), Ty::Array(id, _)) if id.is_unicode_char() => val,
+            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() && id.is_byte() => {
+                StrictVal::Bytes(Blob(s.into_bytes()))
+            }
+            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() && self.is_enum(*id) => {
+                StrictVal::List(self.typify_chars(&s, *id)?)
+            }
+            (StrictVal::List(items), Ty::Array(id, _)) => {
+                let items = self.typify_items(items, *id)?;
+                if id.is_byte() {
+                    StrictVal::Bytes(Blob(items.iter().map(StrictVal::unwrap_uint).collect()))
+                } else {
+                    StrictVal::List(items)
+                }
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
 
             // RString
             (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-- 
2.43.0


From 8e2f7760820b12525433ce3ee0382b6f4573085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 03/28] fix: convert single-character strings into enum values
 in typify

Such a value was accepted as a string and then panicked on writing.
---
 src/value/typify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 4d6a273..273a6d9 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -274,7 +274,8 @@ impl TypeSystem {
 
             // Ascii or other sub-byte character
             (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
+                let name = en.name_by_tag(s.as_bytes()[0]).expect("checked in match");
+                StrictVal::enumer(name.clone())
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
-- 
2.43.0


From bd6169eddf187e02bda5a81312b13588be1db22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 04/28] fix: name union variants in typified values

A union given with a numeric tag kept it, thus the value differed from the same union given
with the variant name and from the one read back from its serialization.
---
 src/value/typify.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 273a6d9..43fd3ea 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -389,9 +389,9 @@ impl TypeSystem {
                 }
             }
             (StrictVal::Union(tag, content), Ty::Union(vars_req)) => {
-                let Some(id) = (match &tag {
-                    EnumTag::Name(name) => vars_req.ty_by_name(name),
-                    EnumTag::Ord(ord) => vars_req.ty_by_tag(*ord),
+                let Some((variant, id)) = (match &tag {
+                    EnumTag::Name(name) => vars_req.by_name(name),
+                    EnumTag::Ord(ord) => vars_req.by_tag(*ord),
                 }) else {
                     return Err(Error::UnionTagInvalid(
                         tag,
@@ -399,7 +399,7 @@ impl TypeSystem {
                     ));
                 };
                 let checked = self.typify(*content, *id)?;
-                StrictVal::Union(tag, Box::new(checked.val))
+                StrictVal::Union(EnumTag::Name(variant.name.clone()), Box::new(checked.val))
             }
 
             // Field count check:
-- 
2.43.0


From 830bdd2725889ef6b7231478a8a098897eac150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 05/28] fix: check type of the `none` variant in typify

A union which looks like an optional but has a non-unit `none` variant was accepted with a
unit value in it and panicked on writing.
---
 src/value/typify.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 43fd3ea..ca66914 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -459,16 +459,18 @@ impl TypeSystem {
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                StrictVal::union("none", self.typify(StrictVal::Unit, content)?.val)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
+                let none = *fields.ty_by_tag(0).expect("optional always have `None`");
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    StrictVal::union("none", self.typify(StrictVal::Unit, none)?.val)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From 21962b342056d93c6e918d4d83b04c6b683f9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 06/28] fix: check number of tuple fields given as a list in
 typify

A list with a wrong number of items was silently cut or accepted as a tuple with missing
fields; a list with several items was also not accepted as a newtype over a list.
---
 src/value/typify.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index ca66914..ca6b111 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -403,8 +403,8 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
-                if fields.len() != fields_req.len() =>
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
+                if fields.len() != fields_req.len() && fields_req.len() > 1 =>
             {
                 return Err(Error::FieldNumberMismatch {
                     spec,
@@ -423,7 +423,9 @@ impl TypeSystem {
             }
 
             // Check specific field types:
-            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
+            (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req))
+                if s.len() == fields_req.len() =>
+            {
                 let mut new = Vec::with_capacity(s.len());
                 for (item, id) in s.into_iter().zip(fields_req) {
                     let checked = self.typify(item, *id)?;
-- 
2.43.0


From e7a0e40d19b2930bf07373281bbabe86678b5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 07/28] fix: refuse maps with missing or repeated keys as
 structures in typify

A map which misses some of the structure fields, or has a field repeated, was accepted.
---
 src/value/typify.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index ca6b111..a739c55 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -422,6 +422,16 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::Map(fields), Ty::Struct(fields_req))
+                if fields.len() != fields_req.len() =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
             (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req))
                 if s.len() == fields_req.len() =>
@@ -455,6 +465,9 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        return Err(Error::RepeatedKeyValue(spec, StrictVal::str(fname)));
+                    }
                     new.insert(fname, checked.val);
                 }
                 StrictVal::Struct(new)
-- 
2.43.0


From f7f6f5df3e32956a66d88b0a268dc35366259fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 08/28] fix: check items of lists given as text in typify

Any ASCII string was accepted as a list of arbitrary items, writing raw characters instead of
the items. Lists of bytes and characters now have the same form as when they are read.
---
 src/value/typify.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index a739c55..470fa0b 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -112,6 +112,20 @@ pub enum Error {
     InvalidOptional(StrictVal),
 }
 
+trait CharValue {
+    /// Returns character represented by a typified value of a character enum.
+    fn char_of(&self, val: &StrictVal) -> Option<char>;
+}
+
+impl CharValue for EnumVariants {
+    fn char_of(&self, val: &StrictVal) -> Option<char> {
+        match val {
+            StrictVal::Enum(EnumTag::Name(name)) => self.tag_by_name(name).map(char::from),
+            _ => None,
+        }
+    }
+}
+
 trait PrimitiveValue {
     fn is_small_unsigned(&self) -> bool;
     fn is_large_unsigned(&self) -> bool;
@@ -320,17 +334,29 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
+            (StrictVal::String(s), Ty::List(id, _)) if s.is_ascii() && self.is_enum(*id) => {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
-                StrictVal::String(s)
+                let chars = self.typify_chars(&s, *id)?;
+                if self.find(*id).is_some_and(Ty::is_char_enum) {
+                    StrictVal::String(s)
+                } else {
+                    StrictVal::List(chars)
+                }
             }
             (StrictVal::List(s), Ty::List(id, _)) => {
-                let mut new = Vec::with_capacity(s.len());
-                for item in s {
-                    let checked = self.typify(item, *id)?;
-                    new.push(checked.val);
+                let items = self.typify_items(s, *id)?;
+                match self.find(*id) {
+                    _ if id.is_byte() => {
+                        StrictVal::Bytes(Blob(items.iter().map(StrictVal::unwrap_uint).collect()))
+                    }
+                    _ if id.is_unicode_char() => {
+                        StrictVal::String(items.iter().map(StrictVal::unwrap_string).collect())
+                    }
+                    Some(Ty::Enum(chars)) if self[*id].is_char_enum() => {
+                        StrictVal::String(items.iter().filter_map(|item| chars.char_of(item)).collect())
+                    }
+                    _ => StrictVal::List(items),
                 }
-                StrictVal::List(new)
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
-- 
2.43.0


From 7e67d94cbd4d24ac3283ef372c113ee45bb8eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 09/28] fix: check characters and length of restricted strings
 in typify

Any ASCII string was accepted for any tuple with two fields, including the ones which are not
restricted strings, panicking on writing.
---
 src/value/typify.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 470fa0b..de0d89d 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -316,15 +316,14 @@ impl TypeSystem {
             }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-                /* Invalid: we need to preserve string structure
-                let first = fields.first().expect("checked length");
-                let rest = fields.last().expect("checked length");
-                let first =
-                    self.typify(StrictVal::Enum(EnumTag::Ord(s.as_bytes()[0] as u8)), *first)?;
-                let rest = self.typify(StrictVal::String(s[1..].to_owned()), *rest)?;
-                StrictVal::Tuple(vec![first.val, rest.val])
-                 */
+            (StrictVal::String(s), Ty::Tuple(fields))
+                if s.is_ascii()
+                    && !s.is_empty()
+                    && self.is_rstring(fields).unwrap_or_default() =>
+            {
+                // We need to preserve string structure, thus do not produce a tuple
+                self.typify(StrictVal::enumer(s.as_bytes()[0]), fields[0])?;
+                self.typify(StrictVal::str(&s[1..]), fields[1])?;
                 StrictVal::String(s)
             }
 
@@ -467,7 +466,15 @@ impl TypeSystem {
                     let checked = self.typify(item, *id)?;
                     new.push(checked.val);
                 }
-                StrictVal::Tuple(new)
+                match (self.find(fields_req[0]), new.last()) {
+                    (Some(Ty::Enum(chars)), Some(StrictVal::String(rest)))
+                        if self.is_rstring(fields_req).unwrap_or_default() =>
+                    {
+                        let first = chars.char_of(&new[0]);
+                        StrictVal::String(first.into_iter().chain(rest.chars()).collect())
+                    }
+                    _ => StrictVal::Tuple(new),
+                }
             }
             (StrictVal::Struct(s), Ty::Struct(fields_req)) => {
                 let mut new = IndexMap::with_capacity(s.len());
-- 
2.43.0


From a80f28967faf28bd8a9b6db93cda14c34c046a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 10/28] fix: arithmetic overflow in restricted string size

---
 src/typesys/type_sys.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From 83b08db9c30e3bfaf3a370a5b801b7beda57700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 11/28] fix: validate collections while reading typed values

Length bounds, character sets, repeated set items and map keys were not checked; byte and text
lists longer than u32::MAX had a different form; an untrusted length prefix was used for
memory allocation; the unit type and unicode characters were failing or panicking.
---
 src/value/decode.rs | 286 +++++++++++++++++++-------------------------
 1 file changed, 124 insertions(+), 162 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..e8f8495 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,14 +23,13 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
-use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    self, U16 as MAX16, U24 as MAX24, U32 as MAX32, U64 as MAX64, U8 as MAX8,
 };
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{
+    DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader,
+};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -81,14 +80,74 @@ impl SymbolicSys {
     }
 }
 
+/// Maximal number of items to pre-allocate before they were actually read: the length prefix is
+/// not trusted.
+const MAX_PREALLOC: usize = 64;
+
+/// Reads a collection length and checks that it is within the type bounds.
+fn strict_read_len(sizing: &Sizing, d: &mut impl ReadRaw) -> Result<usize, Error> {
+    let len = match sizing.max {
+        tiny if tiny <= MAX8 as u64 => d.read_raw_len::<MAX8>()?,
+        small if small <= MAX16 as u64 => d.read_raw_len::<MAX16>()?,
+        medium if medium <= MAX24 as u64 => d.read_raw_len::<MAX24>()?,
+        large if large <= MAX32 as u64 => d.read_raw_len::<MAX32>()?,
+        _ => d.read_raw_len::<MAX64>()?,
+    };
+    if (len as u64) < sizing.min {
+        return Err(DecodeError::from(confinement::Error::Undersize {
+            len,
+            min_len: sizing.min as usize,
+        })
+        .into());
+    }
+    if len as u64 > sizing.max {
+        return Err(DecodeError::from(confinement::Error::Oversize {
+            len,
+            max_len: sizing.max as usize,
+        })
+        .into());
+    }
+    Ok(len)
+}
+
+/// Reads a byte string by chunks, not allocating more memory than there are data.
+fn strict_read_bytes(len: usize, d: &mut impl ReadRaw) -> Result<Vec<u8>, Error> {
+    let mut bytes = Vec::new();
+    while bytes.len() < len {
+        let chunk = MAX16.min(len - bytes.len());
+        bytes.extend(d.read_raw::<MAX16>(chunk).map_err(DecodeError::from)?);
+    }
+    Ok(bytes)
+}
+
 impl TypeSystem {
+    fn ty(&self, sem_id: SemId) -> Result<&Ty<SemId>, Error> {
+        if sem_id == SemId::unit() {
+            return Ok(&Ty::UNIT);
+        }
+        self.find(sem_id).ok_or_else(|| Error::TypeAbsent(TypeSpec::from(sem_id)))
+    }
+
+    /// Checks that the string consists of the characters present in the enum.
+    fn check_chars(&self, sem_id: SemId, s: &[u8]) -> Result<(), Error> {
+        let Ty::Enum(variants) = self.ty(sem_id)? else {
+            unreachable!("character set must be an enum")
+        };
+        match s.iter().find(|c| !variants.has_tag(**c)) {
+            None => Ok(()),
+            Some(c) => {
+                Err(DecodeError::EnumTagNotKnown(TypeSpec::from(sem_id).to_string(), *c).into())
+            }
+        }
+    }
+
     fn strict_read_list(
         &self,
         len: usize,
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -96,6 +155,23 @@ impl TypeSystem {
         Ok(list)
     }
 
+    fn strict_read_set(
+        &self,
+        len: usize,
+        ty: SemId,
+        d: &mut impl ReadRaw,
+    ) -> Result<Vec<StrictVal>, Error> {
+        let mut set = Vec::with_capacity(len.min(MAX_PREALLOC));
+        for _ in 0..len {
+            let item = self.strict_read_type(ty, d)?;
+            if set.contains(&item.val) {
+                return Err(DecodeError::RepeatedSetValue.into());
+            }
+            set.push(item.val);
+        }
+        Ok(set)
+    }
+
     fn strict_read_map(
         &self,
         len: usize,
@@ -103,10 +179,13 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
+            if list.iter().any(|(k, _)| k == &key.val) {
+                return Err(DecodeError::RepeatedMapValue.into());
+            }
             list.push((key.val, item.val));
         }
         Ok(list)
@@ -127,7 +206,7 @@ impl TypeSystem {
         mut d: &mut impl ReadRaw,
     ) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
-        let ty = self.find(sem_id).ok_or_else(|| Error::TypeAbsent(spec.clone()))?;
+        let ty = self.ty(sem_id)?;
 
         let mut reader = StrictReader::with(d);
 
@@ -159,52 +238,29 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                return Err(Error::NotImplemented(s!(
+                    "loading stand-alone unicode characters into a typed value"
+                )));
             }
 
             // ASCII strings:
-            Ty::List(sem_id, sizing)
-                if self
-                    .find(*sem_id)
-                    .ok_or_else(|| Error::TypeAbsent(spec.clone()))?
-                    .is_char_enum() =>
-            {
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
-                } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
-                }
+            Ty::List(sem_id, sizing) if self.ty(*sem_id)?.is_char_enum() => {
+                let d = reader.unbox();
+                let len = strict_read_len(sizing, d)?;
+                let bytes = strict_read_bytes(len, d)?;
+                self.check_chars(*sem_id, &bytes)?;
+                StrictVal::String(String::from_utf8(bytes).map_err(DecodeError::from)?)
             }
             // Restricted strings:
             Ty::Tuple(fields) if self.is_rstring(fields)? => {
-                let (_, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
-                if sizing.max <= u8::MAX as u64 {
-                    StrictVal::String(TinyAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u16::MAX as u64 {
-                    StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u24::MAX.into_u64() {
-                    StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
-                } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
-                }
+                let (rest, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
+                let d = reader.unbox();
+                let len = strict_read_len(&sizing, d)?;
+                let bytes = strict_read_bytes(len, d)?;
+                let (first_char, rest_chars) = bytes.split_at(1);
+                self.check_chars(fields[0], first_char)?;
+                self.check_chars(rest, rest_chars)?;
+                StrictVal::String(String::from_utf8(bytes).map_err(DecodeError::from)?)
             }
 
             Ty::Enum(variants) => {
@@ -258,132 +314,38 @@ impl TypeSystem {
             }
 
             // Byte strings:
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u8::MAX as u64 => {
-                let string = TinyBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u16::MAX as u64 => {
-                let string = SmallBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u24::MAX.into_u64() => {
-                let string = MediumBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
+            Ty::List(ty, sizing) if ty.is_byte() => {
+                let d = reader.unbox();
+                let len = strict_read_len(sizing, d)?;
+                StrictVal::Bytes(Blob(strict_read_bytes(len, d)?))
             }
 
             // Unicode strings:
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u8::MAX as u64 => {
-                let string = TinyString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u16::MAX as u64 => {
-                let string = SmallString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u24::MAX.into_u64() => {
-                let string = MediumString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
+            Ty::List(ty, sizing) if ty.is_unicode_char() => {
+                let d = reader.unbox();
+                let len = strict_read_len(sizing, d)?;
+                let bytes = strict_read_bytes(len, d)?;
+                StrictVal::String(String::from_utf8(bytes).map_err(DecodeError::from)?)
             }
 
             // Other lists:
-            Ty::List(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
+            Ty::List(ty, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
+                let len = strict_read_len(sizing, d)?;
+                let list = self.strict_read_list(len, *ty, d)?;
                 StrictVal::List(list)
             }
-            Ty::List(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            Ty::List(ty, _) => {
-                let len = u64::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::List(list)
-            }
-            // TODO: Find a way to check for the uniqueness of the set values
-            Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len.into_usize(), *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Set(ty, _) => {
-                let len = u64::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_list(len as usize, *ty, d)?;
-                StrictVal::Set(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u8::MAX as u64 => {
-                let len = u8::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u16::MAX as u64 => {
-                let len = u16::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u24::MAX.into_u64() => {
-                let len = u24::strict_decode(&mut reader)?;
-                d = reader.unbox();
-                let list = self.strict_read_map(len.into_usize(), *key_id, *id, d)?;
-                StrictVal::Map(list)
-            }
-            Ty::Map(key_id, id, sizing) if sizing.max <= u32::MAX as u64 => {
-                let len = u32::strict_decode(&mut reader)?;
+            Ty::Set(ty, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
+                let len = strict_read_len(sizing, d)?;
+                let set = self.strict_read_set(len, *ty, d)?;
+                StrictVal::Set(set)
             }
-            Ty::Map(key_id, id, _sizing) => {
-                let len = u64::strict_decode(&mut reader)?;
+            Ty::Map(key_id, id, sizing) => {
                 d = reader.unbox();
-                let list = self.strict_read_map(len as usize, *key_id, *id, d)?;
-                StrictVal::Map(list)
+                let len = strict_read_len(sizing, d)?;
+                let map = self.strict_read_map(len, *key_id, *id, d)?;
+                StrictVal::Map(map)
             }
         };
 
-- 
2.43.0


From 9b1ec25e0086848b484a74c90865becc027c28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 12/28] fix: follow all steps of a path in a value

---
 src/value/path.rs | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..df7e2de 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -164,33 +164,27 @@ impl StrictVal {
         &self,
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
-        let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
-                if *no as usize >= fields.len() =>
-            {
-                Err(PathError::FieldNoOutOfBounds(*no, fields.len()))
-            }
-            (StrictVal::Tuple(fields), Some(Step::UnnamedField(no))) => Ok(&fields[*no as usize]),
-            (StrictVal::Struct(fields), Some(Step::NamedField(name))) => {
-                fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx)))
-                if *idx as usize >= items.len() =>
-            {
-                Err(PathError::CollectionIndexOutOfBounds(*idx, items.len()))
-            }
-            (StrictVal::List(items) | StrictVal::Set(items), Some(Step::Index(idx))) => {
-                Ok(&items[*idx as usize])
+        let mut val = self;
+        for step in path {
+            val = match (val, step) {
+                (StrictVal::Tuple(fields), Step::UnnamedField(no)) => fields
+                    .get(*no as usize)
+                    .ok_or(PathError::FieldNoOutOfBounds(*no, fields.len()))?,
+                (StrictVal::Struct(fields), Step::NamedField(name)) => {
+                    fields.get(name).ok_or(PathError::UnknownFieldName(name.clone()))?
+                }
+                (StrictVal::List(items) | StrictVal::Set(items), Step::Index(idx)) => items
+                    .get(*idx as usize)
+                    .ok_or(PathError::CollectionIndexOutOfBounds(*idx, items.len()))?,
+                (StrictVal::Map(items), Step::Key(idx)) => items
+                    .iter()
+                    .find(|(key, _)| idx.has_match(key))
+                    .map(|(_, val)| val)
+                    .ok_or(PathError::UnknownKey(idx.clone()))?,
+
+                (val, step) => return Err(PathError::TypeMismatch(step.clone(), val.clone())),
             }
-            (StrictVal::Map(items), Some(Step::Key(idx))) => items
-                .iter()
-                .find(|(key, _)| idx.has_match(key))
-                .map(|(_, val)| val)
-                .ok_or(PathError::UnknownKey(idx.clone())),
-
-            (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
         }
+        Ok(val)
     }
 }
-- 
2.43.0


From a87e5e9c206df2c2cfed27c9e06dac1350dc18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 13/28] fix: follow paths in a type from the outside in

---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..37e5987 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,13 +106,13 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
+                (Ty::Tuple(fields), Step::UnnamedField(no)) => fields.ty_by_pos(*no),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
                 (Ty::Array(ty, _), Step::Index) => Some(ty),
                 (Ty::List(ty, _), Step::List) => Some(ty),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From 31ec6b589a7d457d6e8df52c732d47ddba750a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 14/28] fix: item case of tuple fields

---
 src/ast/ty.rs           | 2 +-
 src/layout/translate.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..3725b6c 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -330,7 +330,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if pos < fields.len_u8() => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
-- 
2.43.0


From 739460dd561312a33c0b34ba507d2d5d5e6b4778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 15/28] fix: state tags of union variants in item cases

---
 src/ast/ty.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 3725b6c..9fd5263 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -324,9 +324,10 @@ impl<Ref: TypeRef> Ty<Ref> {
     }
     pub fn case_at(&self, pos: u8) -> Option<ItemCase> {
         match self {
-            Ty::Union(fields) => {
-                fields.name_by_pos(pos).map(|name| ItemCase::UnionVariant(pos, name.clone()))
-            }
+            Ty::Union(fields) => fields
+                .keys()
+                .nth(pos as usize)
+                .map(|variant| ItemCase::UnionVariant(variant.tag, variant.name.clone())),
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-- 
2.43.0


From 369f0f78ffff87fb4cc8538642be57df6ed27bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 16/28] fix: overflow when iterating over a type with 255
 fields

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From c4d63a2a18d99798be8f7233789e4e251fe2217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 17/28] fix: import non-negative TOML integers as unsigned
 numbers

---
 src/value/convert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value/convert.rs b/src/value/convert.rs
index 72d13d6..ada5c3b 100644
--- a/src/value/convert.rs
+++ b/src/value/convert.rs
@@ -75,7 +75,10 @@ impl From<toml::Value> for StrictVal {
         use toml::Value;
 
         match toml {
-            Value::Integer(no) => StrictVal::num(no),
+            Value::Integer(no) => match u64::try_from(no) {
+                Ok(no) => StrictVal::num(no),
+                Err(_) => StrictVal::num(no),
+            },
             Value::Float(_f) => todo!(),
             Value::Boolean(v) => StrictVal::bool(v),
             Value::String(s) => StrictVal::String(s),
-- 
2.43.0


From d8d376f53af345037c0cf67d1b96136a5e5b48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 18/28] fix: tuples with several fields are not character sets

---
 src/ast/ty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 9fd5263..8318adc 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -197,7 +197,8 @@ impl<Ref: TypeRef> Ty<Ref> {
 
     pub fn is_char_enum(&self) -> bool {
         if let Ty::Tuple(fields) = self {
-            fields.first().and_then(Ref::as_ty).map(Self::is_char_enum).unwrap_or_default()
+            fields.len() == 1
+                && fields.first().and_then(Ref::as_ty).map(Self::is_char_enum).unwrap_or_default()
         } else if let Ty::Enum(variants) = self {
             variants.iter().all(|variant| (32..=127).contains(&variant.tag))
         } else {
-- 
2.43.0


From a51f51ecf5bd166c06857182234c70d6560abbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 19/28] fix: overflow in length bounds of restricted strings in
 type trees

---
 src/typesys/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
-- 
2.43.0


From 77b185b7799efb87dfb9203219d6aff19abe9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 20/28] fix: depth and item of optional types in type trees

---
 src/typesys/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..8f01a37 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +241,10 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    if !matches!(
+                        self.nested.last(),
+                        Some(NestedCase::NewType(_)) | Some(NestedCase::Option)
+                    ) {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From b3d4e0af073558068ccb5215a1a822fca3a143d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 21/28] fix: report absent inner types when finalizing type
 systems

---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From c134f40b77e6a26e041290aff37b77b51773ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 22/28] fix: keep all names of a type declared by several
 libraries

---
 src/typesys/symbols.rs   | 15 +++++++++------
 src/typesys/translate.rs | 19 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index c931e79..d7f721f 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -21,14 +21,14 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Display, Formatter};
 use std::ops::Index;
 
 use amplify::confinement::{self, MediumOrdSet, SmallOrdSet};
 use encoding::{StrictDeserialize, StrictSerialize, STRICT_TYPES_LIB};
 
-use crate::typesys::{translate, SymTy, TypeFqn, TypeSymbol, TypeSysId, TypeTree};
+use crate::typesys::{translate, TypeFqn, TypeSymbol, TypeSysId, TypeTree};
 use crate::typify::TypeSpec;
 use crate::{Dependency, SemId, Translate, Ty, TypeSystem};
 
@@ -123,14 +123,17 @@ impl StrictDeserialize for SymbolicSys {}
 impl SymbolicSys {
     pub(crate) fn with(
         libs: impl IntoIterator<Item = Dependency>,
-        types: BTreeMap<SemId, SymTy>,
+        types: BTreeMap<SemId, Ty<SemId>>,
+        symbols: BTreeSet<TypeSymbol>,
     ) -> Result<Self, translate::Error> {
         let mut sys = TypeSystem::new();
         let mut sym = Symbols::with(libs)?;
 
-        for (sem_id, info) in types {
-            sys.insert_unchecked(sem_id, info.ty)?;
-            sym.update_unchecked(sem_id, info.orig)?;
+        for (sem_id, ty) in types {
+            sys.insert_unchecked(sem_id, ty)?;
+        }
+        for TypeSymbol { id, fqn } in symbols {
+            sym.update_unchecked(id, fqn)?;
         }
 
         Ok(Self {
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..98eb98f 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -30,7 +30,7 @@ use encoding::{LibName, TypeName, STRICT_TYPES_LIB};
 use crate::ast::SemCommit;
 use crate::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2, LibSubref};
 use crate::typesys::symbols::SymbolicSys;
-use crate::typesys::{SymTy, TypeFqn};
+use crate::typesys::TypeFqn;
 use crate::{CommitConsume, Dependency, LibRef, SemId, Translate, Ty, TypeLib, TypeRef};
 
 /// Information about type semantic id and fully qualified name, if any.
@@ -92,7 +92,8 @@ impl Translate<TypeSymbol> for SemId {
 pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
-    types: BTreeMap<SemId, SymTy>,
+    types: BTreeMap<SemId, Ty<SemId>>,
+    symbols: BTreeSet<TypeSymbol>,
 }
 
 impl SystemBuilder {
@@ -108,8 +109,9 @@ impl SystemBuilder {
         for (ty_name, ty) in lib.types {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
-            let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
-            self.types.insert(id, info);
+            // the same type may be declared by several libraries
+            self.symbols.insert(TypeSymbol::named(id, lib.name.clone(), ty_name));
+            self.types.insert(id, ty);
         }
 
         Ok(self)
@@ -122,8 +124,8 @@ impl SystemBuilder {
             errors.push(Error::AbsentImport(dep));
         }
 
-        for (sem_id, info) in &self.types {
-            for (inner_id, _) in info.ty.type_refs() {
+        for (sem_id, ty) in &self.types {
+            for (inner_id, _) in ty.type_refs() {
                 if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
@@ -136,7 +138,7 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        SymbolicSys::with(self.imported_deps, self.types, self.symbols).map_err(|err| vec![err])
     }
 
     #[allow(clippy::multiple_bound_locations)]
@@ -147,7 +149,8 @@ impl SystemBuilder {
         // run for nested types
         let ty = inline_ty.translate(self, &())?;
         // add to system
-        self.types.insert(id, SymTy::unnamed(ty));
+        self.symbols.insert(TypeSymbol::unnamed(id));
+        self.types.insert(id, ty);
         Ok(id)
     }
 }
-- 
2.43.0


From 9bbb836d2cb84d4fc56af5c192e6c0ec3885cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 23/28] fix: refuse to compile libraries with unknown or
 circular type references

---
 src/typelib/symbolic.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..e1065fc 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,16 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Finds the first type name which is referenced by the type, or by any of the types embedded into
+/// it, and is not present in the index.
+fn unresolved(ty: &Ty<TranspileRef>, index: &TypeIndex) -> Option<TypeName> {
+    ty.type_refs().find_map(|(subty, _)| match subty {
+        TranspileRef::Embedded(ty) => unresolved(ty, index),
+        TranspileRef::Named(name) if !index.contains_key(name) => Some(name.clone()),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +323,18 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // the rest of types refer to unknown types or to each other in a circle
+                for ty in old_types.into_values() {
+                    if let Some(unknown) = unresolved(&ty, &index) {
+                        return Err(CompileError::UnknownType {
+                            unknown,
+                            within: ty,
+                        });
+                    }
+                }
+                unreachable!("type with no unresolved references must be compiled");
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 4fcdfa6ede00d676bcdf077dc2c076b71165bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 24/28] fix: refuse references to libraries which are not used
 by the compiled library

---
 src/typelib/compile.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/typelib/compile.rs b/src/typelib/compile.rs
index 42aa820..b57bd6f 100644
--- a/src/typelib/compile.rs
+++ b/src/typelib/compile.rs
@@ -26,8 +26,8 @@ use std::collections::BTreeMap;
 use encoding::LibName;
 use strict_encoding::TypeName;
 
-use crate::typelib::{Dependency, ExternTypes, InlineRef, InlineRef1, InlineRef2, LibRef};
-use crate::{SemId, Translate, TranspileError, TranspileRef, Ty};
+use crate::typelib::{Dependency, ExternRef, ExternTypes, InlineRef, InlineRef1, InlineRef2, LibRef};
+use crate::{SemId, SymbolRef, Translate, TranspileError, TranspileRef, Ty};
 
 pub type TypeIndex = BTreeMap<TypeName, SemId>;
 
@@ -95,6 +95,15 @@ pub struct NestedContext {
     pub stack: Vec<String>,
 }
 
+impl NestedContext {
+    fn external(&self, ext: SymbolRef) -> Result<ExternRef, CompileError> {
+        if !self.extern_types.contains_key(&ext.lib_name) {
+            return Err(CompileError::UnknownLib(ext.lib_name));
+        }
+        Ok(ext.into())
+    }
+}
+
 impl Translate<LibRef> for TranspileRef {
     type Context = ();
     type Builder = NestedContext;
@@ -116,7 +125,7 @@ impl Translate<LibRef> for TranspileRef {
                 let id = builder.index.get(&name).ok_or(CompileError::Continue)?;
                 Ok(LibRef::Named(*id))
             }
-            TranspileRef::Extern(ext) => Ok(LibRef::Extern(ext.into())),
+            TranspileRef::Extern(ext) => builder.external(ext).map(LibRef::Extern),
         }
     }
 }
@@ -142,7 +151,7 @@ impl Translate<InlineRef> for TranspileRef {
                 let id = builder.index.get(&name).ok_or(CompileError::Continue)?;
                 Ok(InlineRef::Named(*id))
             }
-            TranspileRef::Extern(ext) => Ok(InlineRef::Extern(ext.into())),
+            TranspileRef::Extern(ext) => builder.external(ext).map(InlineRef::Extern),
         }
     }
 }
@@ -168,7 +177,7 @@ impl Translate<InlineRef1> for TranspileRef {
                 let id = builder.index.get(&name).ok_or(CompileError::Continue)?;
                 Ok(InlineRef1::Named(*id))
             }
-            TranspileRef::Extern(ext) => Ok(InlineRef1::Extern(ext.into())),
+            TranspileRef::Extern(ext) => builder.external(ext).map(InlineRef1::Extern),
         }
     }
 }
@@ -193,7 +202,7 @@ impl Translate<InlineRef2> for TranspileRef {
                 let id = builder.index.get(&name).ok_or(CompileError::Continue)?;
                 Ok(InlineRef2::Named(*id))
             }
-            TranspileRef::Extern(ext) => Ok(InlineRef2::Extern(ext.into())),
+            TranspileRef::Extern(ext) => builder.external(ext).map(InlineRef2::Extern),
         }
     }
 }
-- 
2.43.0


From 6554a7930cfbf352a9fc2a82f9d5bc6767dbab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 25/28] fix: refuse enumerations and unions which repeat a
 variant name when decoding

Variants compare equal by tag or by name while they are ordered by tag, so a repeated name slipped through the order check: an enumeration was read with its variants reordered and a union lost one of them.
---
 src/ast/encoding.rs | 35 +++++++++++++++++++++++++++++++----
 src/ast/ty.rs       |  2 +-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..9fb2513 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -21,17 +21,17 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
-use amplify::confinement::TinyOrdMap;
+use amplify::confinement::{NonEmptyVec, TinyOrdMap};
 use encoding::VariantName;
 use strict_encoding::{
     DecodeError, StrictDecode, StrictDumb, StrictEncode, StrictType, TypedRead, TypedWrite,
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::UnionVariants;
+use crate::ast::ty::{EnumVariants, UnionVariants};
 use crate::TypeRef;
 
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
@@ -56,8 +56,15 @@ impl<Ref: TypeRef> StrictEncode for UnionVariants<Ref> {
 impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
-        let mut inner = BTreeMap::new();
+        let mut inner = BTreeMap::<Variant, Ref>::new();
         for (tag, info) in read {
+            // variants are ordered by their tags, so a repeated name has to be looked for
+            if inner.keys().any(|variant| variant.name == info.name) {
+                return Err(DecodeError::DataIntegrityError(format!(
+                    "repeated variant name '{}'",
+                    info.name
+                )));
+            }
             inner.insert(
                 Variant {
                     name: info.name,
@@ -69,3 +76,23 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         UnionVariants::try_from(inner).map_err(DecodeError::from)
     }
 }
+
+impl StrictDecode for EnumVariants {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let read = NonEmptyVec::<Variant, { u8::MAX as usize }>::strict_decode(reader)?;
+        let mut inner = BTreeSet::<Variant>::new();
+        let mut last = None;
+        for variant in read {
+            if matches!(last, Some(tag) if tag > variant.tag) {
+                return Err(DecodeError::BrokenSetOrder);
+            }
+            // both tags and names have to be unique
+            if inner.iter().any(|present| *present == variant) {
+                return Err(DecodeError::RepeatedSetValue);
+            }
+            last = Some(variant.tag);
+            inner.insert(variant);
+        }
+        EnumVariants::try_from(inner).map_err(DecodeError::from)
+    }
+}
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 8318adc..479fc6b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -642,7 +642,7 @@ where Ref: Display
 
 #[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[wrapper(Deref)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
-- 
2.43.0


From e21ecdd0f444b8752eead1b23db2ddd4651778a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 26/28] fix: keep the dependencies header of an armored library
 on one line

With two or more dependencies the header spanned several lines and the armored library could not be parsed back.
---
 src/typelib/serialize.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..9642d14 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,9 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // a header must take a single line, or the armor can't be parsed
+            let deps = self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>();
+            headers.push(ArmorHeader::new("Dependencies", deps.join(", ")));
         }
         headers
     }
-- 
2.43.0


From 7079006696827f050e864742925449656dd1a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 27/28] fix: show pre-release and build fragments of versions
 at their places

---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0


From 785a0af6dbfe8b8ccd559c293d142d15d46e27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 28/28] fix: references to boxed types of other libraries named
 types which do not exist

---
 src/typelib/transpile.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..c7ea96e 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -241,6 +241,10 @@ impl BuilderParent for LibBuilder {
             (LIB_EMBEDDED, _) | (_, None) => _compile(self),
             (lib, Some(name)) if lib != self.lib_name.as_str() => {
                 let (me, r) = _compile(self);
+                // Types which are encoded as another named type, like `Box<T>`, are that type
+                if let TranspileRef::Extern(_) = r {
+                    return (me, r);
+                }
                 let lib_name = libname!(lib);
                 let lib_id = me.dependency_id(&lib_name);
                 (me, TranspileRef::Extern(SymbolRef::with(lib_name, name, lib_id, r.id())))
-- 
2.43.0

