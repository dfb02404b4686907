From 592e26753f0cef78ca86767cc64528bb7d9d2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 01/10] fix: report IntegerUnderflow for a truncated HPACK
 integer instead of panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..977cc6e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if buf.len() <= total {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From 9e9a038e0b3ea0e54e65c7249425c944bd2bdb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/10] fix: report IntegerUnderflow for a missing HPACK string
 instead of panicking

---
 hpack/src/decoder/primitives.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 977cc6e..c8d17d6 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,10 +105,9 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
-    let huffman = buf[0] & 128 == 128;
-
     let mut len = 0;
     let mut total = decode_integer(buf, &mut len, 7)?;
+    let huffman = buf[0] & 128 == 128;
 
     if len as usize > buf.len() - total {
         return Err(DecoderError::IntegerUnderflow);
-- 
2.43.0


From 906413156c2aadb310629cd365260de09237801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 03/10] fix: count the bytes of size updates in the total
 returned by the HPACK decoder

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..470ff74 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -155,7 +155,7 @@ impl<'a> Decoder<'a> {
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From d648fa39301e0ed844ec64a91e3dd939ff6006d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/10] fix: return the hard limit from the HPACK decoder's
 max_dynamic_size

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 470ff74..6657d64 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     /// Note that the dynamic table could actually be of different size. This
     /// size is just a hard limit set by the external protocol.
     pub fn max_dynamic_size(&self) -> u32 {
-        self.table.max_dynamic_size()
+        self.max_dynamic_size
     }
 
     /// Sets the maximum allowed size of the dynamic table.
-- 
2.43.0


From 87e581778a5df575333069827c9d71019e319ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 05/10] fix: let decode_exact fill exactly the available
 capacity of the output vector

---
 hpack/src/decoder/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 6657d64..9c06248 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -141,12 +141,10 @@ impl<'a> Decoder<'a> {
         dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
     ) -> Result<usize, DecoderError> {
         let mut total = 0;
-        let mut limit = dst.capacity();
+        let limit = dst.capacity();
         loop {
-            if buf.is_empty() || limit == 0 {
+            if buf.is_empty() || dst.len() == limit {
                 return Ok(total);
-            } else {
-                limit -= 1;
             }
 
             let octet = buf[0];
-- 
2.43.0


From 9798eafe5ac28844e69f635c7e9d3caf62a500a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 06/10] fix: keep the never indexed representation when the
 best format finds the header in the table

---
 hpack/src/encoder/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..870e6db 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,6 +156,9 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
+                        Some((index, true)) if flags & 0xC == 0x8 => { // keep the never indexed mark
+                            self.encode_indexed_name(index as u32, value, flags, dst)
+                        },
                         Some((index, true)) => {
                             self.encode_indexed(index as u32, dst)
                         },
-- 
2.43.0


From 60d73451972f893c23af60b2fe8214b1fd22b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 07/10] fix: accept only up to 7 one-bits as the padding of a
 Huffman sequence

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..be93bb3 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From 104f9d99ba208c3f68da2fae1b65202feecabff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 08/10] fix: refuse varints longer than 10 bytes instead of
 overflowing

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..9b69e1c 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // the longest possible varint
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // the longest possible varint
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 5855f6f90ec25c600c851d441039cb34604f1f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 09/10] fix: continue decoding after an empty length-delimited
 field

---
 protos/src/decoder/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..48e1063 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -76,6 +76,7 @@ impl Decoder {
         let mut total = 0;
         loop {
             let mut _size = 0;
+            let fields = dst.len();
             match self.key.1 {
                 Typ::Unknown => {
                     _size = self.decode_key(buf)?;
@@ -93,7 +94,7 @@ impl Decoder {
                     _size = self.extract_ld(buf, dst)?;
                 },
             }
-            if _size == 0 {
+            if _size == 0 && dst.len() == fields { // an empty field has no bytes
                 break;
             }
             total += _size;
-- 
2.43.0


From 1626ccc3498476ac963df4b56c9ad35394599313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 10/10] fix: truncate sint32 varints to 32 bits before the
 ZigZag decoding

---
 protos/src/decoder/primitives.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 9b69e1c..c6a418c 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -274,6 +274,7 @@ pub fn decode_uint64_vec(
 pub fn decode_sint32(buf: &[u8], dst: &mut i32) -> Result<usize, DecoderError> {
     let mut val = 0;
     let size = decode_varint(buf, &mut val)?;
+    let val = val as u32; // truncate as other 32-bit types
     *dst = ((val >> 1) as i32) ^ (-((val & 1) as i32));
     Ok(size)
 }
-- 
2.43.0

