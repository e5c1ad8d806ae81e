From 353a6f2814d16001acaedb9634b1863d12d14bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 1/5] fix: report external memory error on storage key hash
 re-read instead of panicking

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From 3456b0127f06b714e0ff9bbc25bfc673c8b4c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 2/5] fix: avoid position overflow on 32bit targets when
 marking signable transaction

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74f580..41172e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,7 +581,9 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
-        let extensions_start = call_start + call_length;
+        let extensions_start = call_start
+            .checked_add(call_length)
+            .ok_or(SignableError::CutSignable)?;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
-- 
2.43.0


From 0e8c76e630ac94306abee2557c9cb342fee0a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 3/5] fix: avoid position overflow on 32bit targets when
 checking unchecked extrinsic length

---
 src/unchecked_extrinsic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..2375590 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,12 +90,13 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    // `extrinsic_start` is within `len`, compact was found in data
+    match extrinsic_length.cmp(&(len - extrinsic_start)) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_length - (len - extrinsic_start),
                 },
             )))
         }
-- 
2.43.0


From fe1b47d5d954d20abba20c08177593f28c3d48a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 4/5] fix: keep both halves of the last u64 element when
 patching 64bit bitvecs on 32bit targets

---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From e6bc9148e9936137bdb00ded7a157f5ace5b6ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 5/5] fix: report oversized 64bit bitvec as type failure on
 32bit targets instead of panicking

---
 src/decoding_sci.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..ff6e170 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1061,7 +1061,11 @@ macro_rules! impl_patched {
 
                     let data_reformed = $reform_vec_fn(data_chunked);
 
-                    let mut bv_reformed = BitVec::<u32, $bitorder>::from_vec(data_reformed);
+                    let mut bv_reformed = BitVec::<u32, $bitorder>::try_from_vec(data_reformed)
+                        .map_err(|_| ParserError::TypeFailure {
+                            position: bitvec_positions.bitvec_start,
+                            ty: stringify!(BitVec<u64, $bitorder>),
+                        })?;
 
                     bv_reformed.split_off(bitvec_positions.bit_length);
 
-- 
2.43.0

