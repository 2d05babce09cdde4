From e8f03030fa84bc8363b6ee3f17b758d265f5dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 01/19] fix: refuse compound sizes smaller than their count
 field

A list, map or array whose declared size does not even cover the count
underflowed: a panic with overflow checks, a huge size without.
---
 src/codec/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..7ea3411 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,6 +531,9 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
+    if input[0] < 1 {
+        return Err(AmqpParseError::InvalidSize);
+    }
     let size = input[0] - 1; // -1 for 1 byte count
     let count = input[1];
     Ok((
@@ -544,7 +547,11 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input);
+    if size < 4 {
+        return Err(AmqpParseError::InvalidSize);
+    }
+    let size = size - 4; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From f06fbc5bfd90564981f5bbdae3fb1c0e8c0eaffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 02/19] fix: refuse maps whose declared size exceeds the input

Decoding such a map sliced out of bounds and panicked.
---
 src/codec/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 7ea3411..da86fe5 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,7 +253,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
             HashMap::with_capacity_and_hasher(count as usize, Default::default());
@@ -264,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             map.insert(key, value); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], map))
+        Ok((input, map))
     }
 }
 
@@ -286,7 +288,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
-        let mut map_input = &input[..header.size as usize];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
         for _ in 0..count {
@@ -296,7 +300,7 @@ impl DecodeFormatted for VecVariantMap {
             map.push((key, value)); // todo: ensure None returned?
         }
         // todo: validate map_input is empty
-        Ok((&input[header.size as usize..], VecVariantMap(map)))
+        Ok((input, VecVariantMap(map)))
     }
 }
 
-- 
2.43.0


From 8861494229ecaf9ca73ba7d2fdf44d59dfe50ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 03/19] fix: keep array decoding inside the declared size

The size field was ignored: elements were read past the declared end, bytes
left inside it were taken for the next value, and an array ending before its
element constructor panicked.
---
 src/codec/decode.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index da86fe5..1b7a526 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -273,13 +273,15 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
-        let item_fmt = input[0]; // todo: support descriptor
-        let mut input = &input[1..];
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (array_input, input) = input.split_at(size);
+        let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?; // todo: support descriptor
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
+            let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
-            input = new_input;
+            array_input = new_input;
         }
         Ok((input, result))
     }
-- 
2.43.0


From 15bb49313d9aa2fa7e34ed857a0b3a72449148c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 04/19] fix: keep list decoding inside the declared size

The size field was ignored: elements were read past the declared end, and
bytes left inside it were taken for the next value.
---
 src/codec/decode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 1b7a526..6685a5d 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -323,12 +323,15 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut list_input, input) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
-            let (new_input, decoded) = Variant::decode(input)?;
+            let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
-            input = new_input;
+            list_input = new_input;
         }
         Ok((input, List(result)))
     }
-- 
2.43.0


From 4ba35f7ac982cf004984173df1d92e4122f22868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 05/19] fix: do not allocate for element counts the peer merely
 claims

A few bytes claiming four billion elements made the decoder reserve hundreds
of gigabytes, which aborts the process.
---
 src/codec/decode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 6685a5d..f72a582 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -15,6 +15,9 @@ use crate::types::{
     ByteStr, Descriptor, List, Multiple, Str, Symbol, Variant, VariantMap, VecVariantMap,
 };
 
+/// Element counts come from the peer: reserve room for this many elements at most up front.
+const MAX_PREALLOCATED: usize = 64;
+
 macro_rules! be_read {
     ($input:ident, $fn:ident, $size:expr) => {{
         decode_check_len!($input, $size);
@@ -258,7 +261,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(capacity_for(count), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -277,7 +280,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, size);
         let (array_input, input) = input.split_at(size);
         let (mut array_input, item_fmt) = codec::decode_format_code(array_input)?; // todo: support descriptor
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity_for(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(array_input, item_fmt)?;
             result.push(decoded);
@@ -294,7 +297,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, size);
         let (mut map_input, input) = input.split_at(size);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity_for(count));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -327,7 +330,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut list_input, input) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity_for(header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(list_input)?;
             result.push(decoded);
@@ -565,6 +568,10 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
+fn capacity_for(count: u32) -> usize {
+    std::cmp::min(count as usize, MAX_PREALLOCATED)
+}
+
 fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
     let seconds = millis / 1000;
     if seconds < 0 {
-- 
2.43.0


From 4b3c939a250a3c83314ec6291546e78ba99236ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 06/19] fix: decode timestamps before 1970 and out of range
 correctly

Counts between -999 and -1 came back positive, whole seconds before 1970
came back a second early or panicked, and so did counts beyond the date
type's range.
---
 src/codec/decode.rs | 23 ++++++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index f72a582..ac44900 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -173,7 +173,9 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let result: Result<(&[u8], i64), AmqpParseError> = be_read!(input, read_i64, 8);
+        let (input, millis) = result?;
+        Ok((input, datetime_from_millis(millis)?))
     }
 }
 
@@ -572,18 +574,13 @@ fn capacity_for(count: u32) -> usize {
     std::cmp::min(count as usize, MAX_PREALLOCATED)
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // round towards the past, the nanoseconds parameter is u32
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = millis.rem_euclid(1000) as u32 * 1_000_000;
+    Utc.timestamp_opt(seconds, nanoseconds)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From b157a51372174aeefd262bf509f32be94b20552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 07/19] fix: accept the zero descriptor the encoder emits

Descriptor::Ulong(0) is encoded as ulong0, which decoding refused.
---
 src/codec/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac44900..0c31d42 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -460,6 +460,9 @@ impl DecodeFormatted for Descriptor {
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
+            codec::FORMATCODE_ULONG_0 => {
+                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
+            }
             codec::FORMATCODE_ULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
-- 
2.43.0


From 754c61d4d60d1a7acf1d6a460d5db865cb99f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 08/19] fix: encode lists with the list constructors

Lists were written with the array constructors, which no decoder, this one
included, accepts as a list.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 3551c6772f36bb56440e6adadab4fd63073c79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 09/19] fix: use the wide array form when the size field needs
 it

An array with 254 content bytes has a size of 256 counting its element
constructor: the one-byte size field wrapped to 0.
---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From d031a4f76d7b8edf61a86b5ec4fc830ed37fbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 10/19] fix: refuse frames smaller than their header

A frame size below 4 underflowed: a panic with overflow checks, and without
them a codec that waits for a frame of 2^64 bytes.
---
 src/io.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..d57513b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -50,6 +50,9 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
 
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
-- 
2.43.0


From 9ecad3c0ab7661727407c84016770b90e0b0c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 11/19] fix: expect a frame header after a malformed frame

The malformed frame was consumed but the codec went on waiting for a frame
body of the same size, so everything that followed was misread.
---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index d57513b..b70cb0b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -72,12 +72,12 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
 
                     let frame_buf = src.split_to(size);
+                    self.state = DecodeState::FrameHeader;
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From baf23d9066e080cc9af716fc6f3cf45cda28dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 12/19] fix: count the message header's descriptor once

The header's own encoded size already includes its descriptor, so messages
with a header announced three bytes more than they encode to, which made
embedding them produce corrupt data.
---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..f5dfd52 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -216,7 +216,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..e9f80ac 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -208,7 +208,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 1e93dd5cfb615f1ad1af52e8ad64a413c15b2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 13/19] fix: forget the cached message size when the value is
 set

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index f5dfd52..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index e9f80ac..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From a965ba926664437e166d4f19ad5248faca9919bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 14/19] fix: do not return the last message section as unparsed

Decoding a message consumes its input but returned the bytes of the last
section as the remainder.
---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From dcba5ca20764937e3dfda24ac4eec7032b816021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 15/19] fix: compare messages without their cached size

Asking a message for its size made it unequal to its own clone.
---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..c059352 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -27,6 +27,20 @@ pub struct InMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for InMessage {
+    fn eq(&self, other: &InMessage) -> bool {
+        // the cached size is not part of the message
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl InMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> InMessage {
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..4a34272 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -23,6 +23,20 @@ pub struct OutMessage {
     size: Cell<usize>,
 }
 
+impl PartialEq for OutMessage {
+    fn eq(&self, other: &OutMessage) -> bool {
+        // the cached size is not part of the message
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl OutMessage {
     /// Create new message and set body
     pub fn with_body(body: Bytes) -> OutMessage {
-- 
2.43.0


From 3998747c406b65bbe4c389ff84ee29bef83005f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 16/19] fix: comparing an owned string with a static one never
 returned

It went through string::String's PartialEq<str>, which calls itself.
---
 src/types/mod.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..53ff696 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -139,16 +139,7 @@ impl borrow::Borrow<str> for Str {
 
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
-        match self {
-            Str::ByteStr(s) => match other {
-                Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
-            },
-            Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
-                Str::Static(o) => s == o,
-            },
-        }
+        self.as_str() == other.as_str()
     }
 }
 
-- 
2.43.0


From c78cd718ba521858e5810f4e94e8557582e14fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 17/19] fix: order strings by their text

The derived order put every owned string before every static one, so equal
strings did not compare as Equal.
---
 src/types/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 53ff696..d23cd5a 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1,4 +1,4 @@
-use std::{borrow, fmt, hash, ops};
+use std::{borrow, cmp, fmt, hash, ops};
 
 use bytes::Bytes;
 use string::{String, TryFrom};
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -143,6 +143,18 @@ impl PartialEq<Str> for Str {
     }
 }
 
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
+impl PartialOrd<Str> for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl PartialEq<str> for Str {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 0cbf20d2f2a17be25697701bb0986ea61a968e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 18/19] fix: hash maps instead of panicking

Using a map as a map key, which a peer can make the decoder do, panicked.
---
 src/types/variant.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..2a15c5b 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -1,4 +1,5 @@
 use hashbrown::HashMap;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 
 use bytes::Bytes;
@@ -136,8 +137,17 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in different orders
+        let mut entries = 0_u64;
+        for (key, value) in &self.map {
+            let mut hasher = DefaultHasher::new();
+            key.hash(&mut hasher);
+            value.hash(&mut hasher);
+            entries = entries.wrapping_add(hasher.finish());
+        }
+        self.map.len().hash(state);
+        entries.hash(state);
     }
 }
 
-- 
2.43.0


From 9206bf5cb14079c6d27bb81b1ddddd806f76e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 19/19] fix: limit how deep decoded values may nest

Decoding recursed once per level, so a few kilobytes of nested lists, maps
or described values overflowed the stack and killed the process.
---
 src/codec/decode.rs | 28 ++++++++++++++++++++++++++++
 src/errors.rs       |  2 ++
 2 files changed, 30 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 0c31d42..556044d 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::hash::{BuildHasher, Hash};
 use std::{char, str, u8};
 
@@ -18,6 +19,32 @@ use crate::types::{
 /// Element counts come from the peer: reserve room for this many elements at most up front.
 const MAX_PREALLOCATED: usize = 64;
 
+/// Lists, maps and described values may be nested this deep.
+const MAX_NESTING: usize = 128;
+
+thread_local!(static NESTING: Cell<usize> = Cell::new(0));
+
+/// One level of nesting, left again on drop
+struct NestingLevel;
+
+impl NestingLevel {
+    fn enter() -> Result<NestingLevel, AmqpParseError> {
+        NESTING.with(|nesting| {
+            if nesting.get() >= MAX_NESTING {
+                return Err(AmqpParseError::NestingTooDeep);
+            }
+            nesting.set(nesting.get() + 1);
+            Ok(NestingLevel)
+        })
+    }
+}
+
+impl Drop for NestingLevel {
+    fn drop(&mut self) {
+        NESTING.with(|nesting| nesting.set(nesting.get() - 1));
+    }
+}
+
 macro_rules! be_read {
     ($input:ident, $fn:ident, $size:expr) => {{
         decode_check_len!($input, $size);
@@ -344,6 +371,7 @@ impl DecodeFormatted for List {
 
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
+        let _level = NestingLevel::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok((input, Variant::Null)),
             codec::FORMATCODE_BOOLEAN => {
diff --git a/src/errors.rs b/src/errors.rs
index e2680c3..705ef59 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -7,6 +7,8 @@ use crate::types::Descriptor;
 pub enum AmqpParseError {
     #[display(fmt = "Loaded item size is invalid")]
     InvalidSize,
+    #[display(fmt = "Values are nested too deeply")]
+    NestingTooDeep,
     #[display(fmt = "More data required during frame parsing: '{:?}'", "_0")]
     Incomplete(Option<usize>),
     #[display(fmt = "Unexpected format code: '{}'", "_0")]
-- 
2.43.0

