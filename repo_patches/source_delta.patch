From d4c525cb9072ca712f4879be29e04dd3a0ef0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 01/11] fix: as_i64/as_i32 return IntegerTooLarge instead of
 wrapping to a negative value

A non-negative INTEGER whose magnitude needs the sign bit of the target type
(for ex. 00 ff ff ff ff ff ff ff ff for i64) was decoded as unsigned and then
cast, so the caller got a negative number. Return IntegerTooLarge, as documented.
---
 src/ber/ber.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 47bb2d6..807a5cf 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -414,7 +414,11 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i64>::from_be_bytes(decode_array_int8(bytes)?)
             } else {
-                <u64>::from_be_bytes(decode_array_uint8(bytes)?) as i64
+                let value = <u64>::from_be_bytes(decode_array_uint8(bytes)?);
+                if value > i64::MAX as u64 {
+                    return Err(BerError::IntegerTooLarge);
+                }
+                value as i64
             };
             Ok(result)
         } else {
@@ -441,7 +445,11 @@ impl<'a> BerObjectContent<'a> {
             let result = if is_highest_bit_set(bytes) {
                 <i32>::from_be_bytes(decode_array_int4(bytes)?)
             } else {
-                <u32>::from_be_bytes(decode_array_uint4(bytes)?) as i32
+                let value = <u32>::from_be_bytes(decode_array_uint4(bytes)?);
+                if value > i32::MAX as u32 {
+                    return Err(BerError::IntegerTooLarge);
+                }
+                value as i32
             };
             Ok(result)
         } else {
-- 
2.43.0


From 788781c61a6845119787aadf0bce1edb72c5fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:35 +0000
Subject: [PATCH 02/11] fix: do not recurse once per leading zero byte when
 decoding an INTEGER

remove_zeroes called itself for every leading zero of the content. Their number
is controlled by the input, so as_u64 and friends overflowed the stack on a
zero-padded integer of a few megabytes. Use a loop.
---
 src/ber/integer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ber/integer.rs b/src/ber/integer.rs
index 2ddb2a0..c3add75 100644
--- a/src/ber/integer.rs
+++ b/src/ber/integer.rs
@@ -4,17 +4,13 @@ use crate::error::*;
 /// zeroes removed.
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
-fn remove_zeroes(bytes: &[u8]) -> Result<&[u8], BerError> {
-    // skip leading 0s
-    match bytes {
-        // [] => Err(BerError::DerConstraintFailed),
-        [0] => Ok(bytes),
-        // [0, byte, ..] if *byte < 0x80 => Err(BerError::DerConstraintFailed),
-        // [0, rest @ ..] => Ok(&rest),
-        [0, rest @ ..] => remove_zeroes(rest),
-        // [byte, ..] if *byte >= 0x80 => Err(BerError::IntegerTooLarge),
-        _ => Ok(bytes),
+fn remove_zeroes(mut bytes: &[u8]) -> Result<&[u8], BerError> {
+    // skip leading 0s, but keep the last byte
+    // note: this must not be recursive, the number of leading zeroes is controlled by the input
+    while bytes.len() > 1 && bytes[0] == 0 {
+        bytes = &bytes[1..];
     }
+    Ok(bytes)
 }
 
 // XXX const generics require rustc >= 1.51
-- 
2.43.0


From 941e7cf06aadfd8966661556c46bd590652a4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 03/11] fix: iterating by value over an empty sequence or set
 yields no item

The consuming iterator fell through to the case of primitive objects, and
yielded the empty container itself, unlike the iterator by reference.
---
 src/ber/ber.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ber/ber.rs b/src/ber/ber.rs
index 807a5cf..fd8ee4f 100644
--- a/src/ber/ber.rs
+++ b/src/ber/ber.rs
@@ -794,6 +794,8 @@ impl<'a> Iterator for BerObjectIntoIterator<'a> {
         let res = match self.val.content {
             BerObjectContent::Sequence(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
             BerObjectContent::Set(ref v) if self.idx < v.len() => Some(v[self.idx].clone()),
+            // end of the sequence or set (which may be empty)
+            BerObjectContent::Sequence(_) | BerObjectContent::Set(_) => None,
             _ => {
                 if self.idx == 0 {
                     Some(self.val.clone())
-- 
2.43.0


From cb71609f59353ff426862ec90fb365bb0f701b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:55 +0000
Subject: [PATCH 04/11] fix: only a universal, primitive tag 0 ends an
 indefinite-length element

When looking for the end of an indefinite-length element, any empty element
with tag number 0 was taken for an End-Of-Content, whatever its class, so that
for ex. an empty [0] (80 00) ended the enclosing element: its other members
were dropped, and returned as unparsed bytes.
---
 src/ber/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index 7aea9cd..ef2f7db 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -21,7 +21,11 @@ pub(crate) fn ber_skip_object_content<'a>(
     }
     match hdr.length() {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag() == Tag::EndOfContent {
+            if l == 0
+                && hdr.tag() == Tag::EndOfContent
+                && hdr.is_universal()
+                && hdr.is_primitive()
+            {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From 50bb57d0f31c59b0e220ad340653c4ef26976575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:55 +0000
Subject: [PATCH 05/11] fix: encode End-Of-Content with no content bytes (X.690
 8.1.5)

The object was serialized as 00 01 00 instead of 00 00.
---
 src/ber/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index d446805..39f08af 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -117,7 +117,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
     c: &'a BerObjectContent,
 ) -> impl SerializeFn<W> + 'a {
     move |out| match c {
-        BerObjectContent::EndOfContent => be_u8(0)(out),
+        BerObjectContent::EndOfContent => Ok(out),
         BerObjectContent::Boolean(b) => {
             let b0 = if *b { 0xff } else { 0x00 };
             be_u8(b0)(out)
-- 
2.43.0


From e012b6b798b50a01185d4e10609c2139cc3f4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:55 +0000
Subject: [PATCH 06/11] fix: encode the ENUMERATED value 0 with one content
 byte

It was serialized with an empty content, but contents octets of an integer or
enumerated value shall consist of one or more octets (X.690 8.3.1, 8.4).
---
 src/ber/serialize.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 39f08af..50b1448 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -128,6 +128,7 @@ fn ber_encode_object_content<'a, W: Write + Default + AsRef<[u8]> + 'a>(
         }
         BerObjectContent::OctetString(s) => slice(s)(out),
         BerObjectContent::Null => Ok(out),
+        BerObjectContent::Enum(0) => be_u8(0)(out),
         BerObjectContent::Enum(i) => {
             let v: Vec<u8> = i
                 .to_be_bytes()
-- 
2.43.0


From 2f10c63950f7ed9a3365dd0275675b4e4f600107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:30 +0000
Subject: [PATCH 07/11] fix: encode tags greater than 30 instead of panicking

ber_encode_header hit unimplemented!() for any tag that needs the
high-tag-number form (X.690 8.1.2.4), so serializing an object just parsed
from such input panicked.
---
 src/ber/serialize.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ber/serialize.rs b/src/ber/serialize.rs
index 50b1448..0bb3d57 100644
--- a/src/ber/serialize.rs
+++ b/src/ber/serialize.rs
@@ -45,7 +45,20 @@ pub fn ber_encode_header<'a, 'b: 'a, W: Write + 'a>(hdr: &'b Header) -> impl Ser
         let class_u8 = (hdr.class() as u8) << 6;
         let pc_u8 = (if hdr.constructed() { 1 } else { 0 }) << 5;
         if hdr.tag().0 > 30 {
-            unimplemented!();
+            // high-tag-number form (X.690 8.1.2.4)
+            let tag = hdr.tag().0;
+            let mut v: Vec<u8> = vec![class_u8 | pc_u8 | 0b1_1111];
+            // base 128, big endian, bit 8 set on all bytes but the last
+            let mut shift: u32 = 28;
+            while tag >> shift == 0 {
+                shift -= 7;
+            }
+            while shift > 0 {
+                v.push(0b1000_0000 | ((tag >> shift) & 0x7f) as u8);
+                shift -= 7;
+            }
+            v.push((tag & 0x7f) as u8);
+            return tuple((slice(v), encode_length(hdr.length())))(out);
         }
         let byte_0 = class_u8 | pc_u8 | (hdr.tag().0 as u8);
         // length octets (X.690 8.1.3)
-- 
2.43.0


From bab83a9f27208789caaba3cccb2d802ec64a6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 08/11] fix: honour the depth limit for BIT STRING in the DER
 parsers

parse_der_recursive and der_read_element_content_as returned a BIT STRING
with max_depth 0, where every other type gives BerMaxDepth.
---
 src/der/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 9a35b64..644f545 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -497,6 +497,7 @@ pub fn der_read_element_content_as(
         }
         Tag::BitString => {
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
+            custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
             // exception: read and verify padding bits
             return der_read_content_bitstring(i, l);
         }
-- 
2.43.0


From ad7fa3582dfdd833266b95f3a98df16df20fdc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 09/11] fix: apply the object size limit to BIT STRING in the
 DER parsers

parse_der_bitstring and parse_der_with_tag accepted a BIT STRING of more than
MAX_OBJECT_SIZE bytes, which is refused for every other type.
---
 src/der/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/der/parser.rs b/src/der/parser.rs
index 644f545..297de92 100644
--- a/src/der/parser.rs
+++ b/src/der/parser.rs
@@ -497,6 +497,8 @@ pub fn der_read_element_content_as(
         }
         Tag::BitString => {
             der_constraint_fail_if!(i, constructed, DerConstraint::Constructed);
+            // safety check: length cannot be more than 2^32 bytes
+            custom_check!(i, l > MAX_OBJECT_SIZE, BerError::InvalidLength)?;
             custom_check!(i, max_depth == 0, BerError::BerMaxDepth)?;
             // exception: read and verify padding bits
             return der_read_content_bitstring(i, l);
-- 
2.43.0


From a9b7e99fcfa9f49c12241c1ccdb89329c8efd725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 10/11] fix: encode_oid! refuses root arcs above 2

X.660 has root arcs 0, 1 and 2 only. 3.5 was encoded as the octet of 2.45,
and 6.39 overflowed it (0x17, that of 0.23, when the macro is built in
release).
---
 der-oid-macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index afac8c2..3a2c589 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -12,7 +12,7 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
             }
             panic!("Need at least two components for non-relative oid");
         }
-        if dec[0] >= 7u8.into() || dec[1] >= 40u8.into() {
+        if dec[0] >= 3u8.into() || dec[1] >= 40u8.into() {
             panic!("First components are too big");
         }
         enc.push(dec[0].to_u8().unwrap() * 40 + dec[1].to_u8().unwrap());
-- 
2.43.0


From dcca2bc7fd8ca167eca717c4e5bf27463aeeb32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:29 +0000
Subject: [PATCH 11/11] fix: encode_oid! takes relative literals of any length

The printed tokens of a long literal are wrapped, with a line break after
the keyword rel, which was then parsed as part of the first component.
---
 der-oid-macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/der-oid-macro/src/lib.rs b/der-oid-macro/src/lib.rs
index 3a2c589..7431bae 100644
--- a/der-oid-macro/src/lib.rs
+++ b/der-oid-macro/src/lib.rs
@@ -66,10 +66,10 @@ fn encode_components(components: &[num_bigint::BigUint], relative: bool) -> Vec<
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let s = input.to_string();
 
-    let (rem, relative) = if s.starts_with("rel ") {
-        (&s[4..], true)
-    } else {
-        (s.as_ref(), false)
+    // note: the printed tokens of a long literal are wrapped, after `rel` is any whitespace
+    let (rem, relative) = match s.strip_prefix("rel") {
+        Some(rem) if rem.starts_with(char::is_whitespace) => (rem, true),
+        _ => (s.as_ref(), false),
     };
 
     let ints: Vec<num_bigint::BigUint> = rem
-- 
2.43.0

