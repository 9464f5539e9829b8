From 6fab5ec2ec10b9e25c579046643c36dff685c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/19] fix: detect a truncated stream in the Length decoder at
 once

The bytes left in the stream after the given buffer were counted as if they
came on top of the buffer, so a stream ending before the expected length was
only noticed at the next call (and the sum could overflow).
---
 src/combinator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..915e61b 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -724,8 +724,7 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From 777fac3dd93ec092980c800b427b81344bdea5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 02/19] fix: let the Length encoder encode more than one item

A fresh Length encoder claimed to be busy, and after its first item it
refused every further one with EncoderFull (and length(0) dropped the item).
It is now idle exactly while its inner encoder is, and the byte budget is
restored after each item.
---
 src/combinator.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 915e61b..19febaf 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -752,6 +752,9 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -764,37 +767,47 @@ impl<E: Encode> Encode for Length<E> {
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
-            track_assert_eq!(
-                self.remaining_bytes,
-                0,
-                ErrorKind::InvalidInput,
-                "Too small item"
-            );
+            track!(self.finish_encoding())?;
         }
         Ok(size)
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
-        self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
+        if self.inner.is_idle() {
+            track!(self.finish_encoding())?;
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
+    }
+}
+impl<E: Encode> Length<E> {
+    fn finish_encoding(&mut self) -> Result<()> {
+        let remaining_bytes = mem::replace(&mut self.remaining_bytes, self.expected_bytes);
+        track_assert_eq!(
+            remaining_bytes,
+            0,
+            ErrorKind::InvalidInput,
+            "Too small item"
+        );
+        Ok(())
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.inner.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 5b701aa418bbbb3ceee2972767b4c40ea7e74166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 03/19] fix: do not let an empty item suspend the Repeat
 encoder

An item that encodes to zero bytes made encode() return although more items
were left and the buffer had room; encode_all() then failed with Other.
---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 19febaf..742bd71 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From 0b3a3a0a1de4f739a60176c0075e8cd0e7bf770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 04/19] fix: do not drop a partially decoded item at the end of
 Collect

When the stream ended with an item only partially decoded and no bytes left
in the buffer, Collect reported success and silently dropped that item. The
inner decoder now gets to see the EOS (UnexpectedEos for truncated items,
completion for items that extend to the end of the stream).
---
 src/combinator.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 742bd71..c1f9197 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,10 +627,18 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                self.started |= size != 0;
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
+            self.started = false;
             self.items.extend(iter::once(item));
         }
         if eos.is_reached() {
-- 
2.43.0


From 3cc474266f79c9eeba28cad3f4e6936f80503399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 05/19] fix: let CollectN finish items that need no further
 bytes

Items of zero bytes were never finished unless unrelated bytes followed
(decode_exact() then looped forever), and an item that extends to the end of
the stream was rejected with UnexpectedEos when the EOS arrived separately.
---
 src/combinator.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index c1f9197..35aed5b 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -827,6 +827,7 @@ impl<E: Encode> SizedEncode for Length<E> {
 #[derive(Debug, Default)]
 pub struct CollectN<D, T> {
     inner: D,
+    started: bool,
     remaining_items: usize,
     items: T,
 }
@@ -859,6 +860,7 @@ impl<D, T: Default> CollectN<D, T> {
     pub(crate) fn new(inner: D, count: usize) -> Self {
         CollectN {
             inner,
+            started: false,
             remaining_items: count,
             items: T::default(),
         }
@@ -873,10 +875,22 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0
+            && (offset < buf.len()
+                || (self.started && eos.is_reached())
+                || self.inner.requiring_bytes() == ByteCount::Finite(0))
+        {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                self.started |= size != 0;
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
+            self.started = false;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-- 
2.43.0


From 37fa62f7e43eb3d8d3caf3f629e8fc79ed1ffff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 06/19] fix: do not panic on a huge remaining length in
 RemainingBytesDecoder

The number of remaining bytes can be a length field read from the peer;
reserving that much up front panicked (capacity overflow, addition overflow)
or aborted the process before a single byte of the item had arrived.
---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..40cad77 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,10 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // This is only a hint: `remaining` may come from an untrusted length field,
+            // so a reservation that cannot be satisfied is not an error here.
+            let additional = buf.len().saturating_add(remaining as usize);
+            let _ = self.buf.try_reserve_exact(additional);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From d2318efbfbc4c880c05a98ad39ec4610bfb6503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 07/19] fix: do not overflow in the MaxBytes limit check

With an enormous number of remaining bytes the sum wrapped around, so the
limit was not enforced (or the addition panicked in debug builds).
---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 35aed5b..75dcd25 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1056,7 +1056,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
-- 
2.43.0


From f15efd11ea07f6b72a2ab822d8ca7b7f6aa0b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 08/19] fix: saturate when adding byte counts

Chaining decoders whose length fields are huge wrapped the required byte
count around (to 0 in the worst case, which makes decode_exact() spin) or
panicked in debug builds; Eos::back() had the same problem.
---
 src/byte_count.rs | 4 ++--
 src/eos.rs        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From 90898e04079bf8c38b115037b46e486bd1c0fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/19] fix: keep the decoded item of an idle MonolithicDecoder

decode() on a decoder that already holds an item must consume nothing; it
consumed the bytes (and replaced the item or buffered them for the next one).
---
 src/monolithic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..78ccc71 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,7 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
-        if eos.is_reached() {
+        if self.item.is_some() {
+            Ok(0)
+        } else if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
                 self.inner.monolithic_decode(self.buf.as_slice().chain(buf.by_ref()));
-- 
2.43.0


From 64a54c12f75f64c0c10ed13b2149acdd0d98fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 10/19] fix: report UnexpectedEos from the first
 MonolithicEncoder::encode call

When the output stream ended before the item did, the first encode() call
returned Ok although encoded bytes were left over.
---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index 78ccc71..27e7142 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -143,6 +143,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
                 Ok(original_len - buf.len())
             } else {
                 track!(self.buf.start_encoding(extra))?;
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos; original_len);
                 Ok(original_len)
             }
         } else {
-- 
2.43.0


From 8c13fbb98eb9f23ca18fb1d1af3f6d0b906025a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 11/19] fix: do not charge a rejected item to the next one in
 MaxBytes

After an item exceeded the limit, the bytes it used stayed on the account, so
every later item was rejected too, however small.
---
 src/combinator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 75dcd25..b1bbe01 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1086,12 +1086,13 @@ impl<E: Encode> Encode for MaxBytes<E> {
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
         let size = track!(self.inner.encode(buf, eos))?;
         self.consumed_bytes += size as u64;
-        track_assert!(self.consumed_bytes <= self.max_bytes,
-                      ErrorKind::InvalidInput, "Max bytes limit exceeded";
-                      self.consumed_bytes, self.max_bytes);
+        let consumed_bytes = self.consumed_bytes;
         if self.is_idle() {
             self.consumed_bytes = 0;
         }
+        track_assert!(consumed_bytes <= self.max_bytes,
+                      ErrorKind::InvalidInput, "Max bytes limit exceeded";
+                      consumed_bytes, self.max_bytes);
         Ok(size)
     }
 
-- 
2.43.0


From 6e11cb101feb860accf92e112bfd0f92cedfc87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 12/19] fix: do not loop forever in decode_exact at the end of
 the stream

A decoder that tolerates EOS between items (e.g. maybe_eos()) made
decode_exact() read the ended stream again and again.
---
 src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..41c641f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,7 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
     }
 }
-- 
2.43.0


From ddbd1e2f0622d6454eda2dc40d4d3c68a49e36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 13/19] fix: refuse a new tuple while the previous one is being
 encoded

If the leading elements had been written already, they accepted the new
values before a later element reported EncoderFull, and the stray elements
corrupted the output of the tuple in flight.
---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..8255f41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 938c0087b21c57026bafeecb6ada2de46af0ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 14/19] fix: wake the memorized waker when poll_flush frees the
 write buffer

encode_to_write_buf_async() promises that the waker it memorizes is woken
when the buffer regains free space; only the blocking flush() did so.
---
 src/io_async.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..5d87bce 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -77,6 +77,9 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                     if self.head == self.tail {
                         self.head = 0;
                         self.tail = 0;
+                        if let Some(waker) = self.waker.take() {
+                            waker.wake();
+                        }
                     }
                 }
                 Poll::Pending => {
-- 
2.43.0


From 53261050e6cb66ba5d094496adce691897c01c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 15/19] fix: reject an announcement that overflows the MaxBytes
 counter

---
 src/combinator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index b1bbe01..6a92496 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1056,7 +1056,8 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
+                let total = (buf.len() as u64).checked_add(remaining_bytes);
+                track_assert!(total.is_some_and(|n| n <= consumable_bytes),
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
-- 
2.43.0


From 210f1cc24a678d004bd5c1469c6ac647b2290183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 16/19] fix: keep the item started in MaybeEos when finishing
 it early is refused

---
 src/combinator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 6a92496..50fbb7d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1476,8 +1476,12 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
-        track!(self.inner.finish_decoding())
+        let completed = self.inner.is_idle();
+        let result = self.inner.finish_decoding();
+        if completed || result.is_ok() {
+            self.started = false;
+        }
+        track!(result)
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From b9214d346eebfb640596614b59350268e19b8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 17/19] fix: keep the consumption count of MaxBytes when
 finishing early is refused

---
 src/combinator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 50fbb7d..247920e 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1069,8 +1069,12 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
-        track!(self.inner.finish_decoding())
+        let completed = self.inner.is_idle();
+        let result = self.inner.finish_decoding();
+        if completed || result.is_ok() {
+            self.consumed_bytes = 0;
+        }
+        track!(result)
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From 4bdb105742bad2c6b389d3ab4f47ce22aa1b3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 18/19] fix: go on with the last item in the same call when the
 one before it ends

---
 src/combinator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 247920e..d0417d2 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1315,12 +1315,20 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
+        let mut offset = 0;
+        if self.item.is_some() {
+            if !self.inner.is_idle() {
+                offset = track!(self.inner.encode(buf, eos))?;
+            }
+            if !self.inner.is_idle() {
+                return Ok(offset);
+            }
             if let Some(item) = self.item.take() {
                 track!(self.inner.start_encoding(item))?;
             }
         }
-        track!(self.inner.encode(buf, eos))
+        offset += track!(self.inner.encode(&mut buf[offset..], eos))?;
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From 99b1384171cb3c5dc7b1889ae7dc79720494872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:57 +0000
Subject: [PATCH 19/19] fix: saturate when adding the exact sizes of tuple
 elements

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 8255f41..0ae17ad 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -126,7 +126,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64$(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0

