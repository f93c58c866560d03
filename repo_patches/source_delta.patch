From f472c5053360bb405a07250e34c5f67901aa3432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 1/8] fix: hpack decoder reports truncated integers instead of
 panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..578dd7e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if total >= buf.len() {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From 3f481324dbcb6ac91e1bf788321d1edc83cde6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 2/8] fix: hpack decoder reports a missing string literal
 instead of panicking

---
 hpack/src/decoder/primitives.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 578dd7e..1d28a26 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,7 +105,10 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
-    let huffman = buf[0] & 128 == 128;
+    let huffman = match buf.first() {
+        Some(octet) => octet & 128 == 128,
+        None => return Err(DecoderError::IntegerUnderflow),
+    };
 
     let mut len = 0;
     let mut total = decode_integer(buf, &mut len, 7)?;
-- 
2.43.0


From 1bea8e6884486de3b2cf048a2831ebfa1e9b8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 3/8] fix: hpack encoder keeps never-indexed headers literal in
 best format mode

---
 hpack/src/encoder/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..7053924 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,6 +156,9 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
+                        Some((index, true)) if flags & 0xC == 0x8 => { // sensitive header must stay literal
+                            self.encode_indexed_name(index as u32, value, flags, dst)
+                        },
                         Some((index, true)) => {
                             self.encode_indexed(index as u32, dst)
                         },
-- 
2.43.0


From ff40a2efd4b36939c3fe48a074be1b1feded8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 4/8] fix: hpack decoder accounts for size update signals
 correctly

---
 hpack/src/decoder/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..8965f70 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -145,17 +145,19 @@ impl<'a> Decoder<'a> {
         loop {
             if buf.is_empty() || limit == 0 {
                 return Ok(total);
-            } else {
-                limit -= 1;
             }
 
             let octet = buf[0];
+            if octet & 224 != 32 { // size update signal is not a header
+                limit -= 1;
+            }
+
             if octet & 128 == 128 { // indexed
                 total += self.decode_indexed(buf, dst)?;
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From 2c5cda7844dd9a8770ed090cea8bd8079c0039ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 5/8] fix: hpack decoder returns the hard limit of the dynamic
 table size

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8965f70..2300f00 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     /// Note that the dynamic table could actually be of different size. This
     /// size is just a hard limit set by the external protocol.
     pub fn max_dynamic_size(&self) -> u32 {
-        self.table.max_dynamic_size()
+        self.max_dynamic_size
     }
 
     /// Sets the maximum allowed size of the dynamic table.
-- 
2.43.0


From 446e69ebe426c3795c24d28ce510f3aa702b7068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 6/8] fix: huffman decoder rejects padding which is not made of
 EOS bits

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..be93bb3 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From 70684a473875c94d2a1853f23cbb7b84ac87e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 7/8] fix: protos decoder rejects varints longer than 10 bytes

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..de7dfcc 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // the longest encoding of a 64-bit number
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // the longest encoding of a 64-bit number
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 6bf192aa37730f76e88ba2f8ee4e15da292ff8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 8/8] fix: protos decoder continues after an empty
 length-delimited field

---
 protos/src/decoder/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..977f021 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -211,11 +211,14 @@ impl Decoder {
         buf: &mut Vec<u8>,
         dst: &mut Vec<(u32, Typ, Vec<u8>)>,
     ) -> Result<usize, DecoderError> {
+        let mut size = 0;
+        if self.ld_len.is_none() {
+            size += self.decode_ld_len(buf)?;
+        }
         if self.ld_len.is_some() {
-            self.extract_ld_bytes(buf, dst)
-        } else {
-            self.decode_ld_len(buf)
+            size += self.extract_ld_bytes(buf, dst)?;
         }
+        Ok(size)
     }
 
     /// Decodes an encoded length of the currently handled length-delimited
-- 
2.43.0

