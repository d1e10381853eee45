From db4c17781b368c3c7fa64a28c9f6f60ab50e91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:06 +0000
Subject: [PATCH 01/21] fix: return errors raised by the equality callback from
 table lookups

A failing equality callback was treated as 'not equal' while probing, so a
raising eql? was silently dropped by lookups and inserts on indexed maps.
---
 hashbrown/src/raw/mod.rs | 45 +++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..e3cdbf6 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,27 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            let mut err = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    match eq(self.bucket(index).as_ref(), e, g) {
+                        Ok(found) => found,
+                        Err(r) => {
+                            // Stop probing; the failure is returned below.
+                            err = Some(r);
+                            true
+                        }
+                    }
+                });
+            if let Some(r) = err {
+                return Err(r);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1103,20 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            let mut err = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                match eq(self.bucket(index).as_ref(), e, g) {
+                    Ok(found) => found,
+                    Err(r) => {
+                        // Stop probing; the failure is returned below.
+                        err = Some(r);
+                        true
+                    }
+                }
             });
+            if let Some(r) = err {
+                return Err(r);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
-- 
2.43.0


From 30279f5e589a4e5be4a482f933dbb718cc241cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:06 +0000
Subject: [PATCH 02/21] fix: hash the query key when removing from a
 single-entry map

The single-entry fast path of shift_remove/swap_remove compared with eql
without hashing, so a raising or differing hash was never noticed.
Lookups already hash unless the map is empty; removal now does the same.
---
 rubymap/src/map.rs | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..1d35468 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -983,20 +983,13 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.swap_remove_full(hash, key, e, g)
-            }
+        // As in `get_index_of`, the query key is always hashed unless the map
+        // is empty, and `#eql?` is only consulted on a hash match.
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.swap_remove_full(hash, key, e, g)
     }
 
     /// Remove `key` from the index table only, leaving its entry in place
@@ -1116,20 +1109,13 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.shift_remove_full(hash, key, e, g)
-            }
+        // As in `get_index_of`, the query key is always hashed unless the map
+        // is empty, and `#eql?` is only consulted on a hash match.
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.shift_remove_full(hash, key, e, g)
     }
 }
 
-- 
2.43.0


From 63410a7921ef90d576113632b556a39568f7e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:29 +0000
Subject: [PATCH 03/21] fix: keep 2**-255 distinct from 0.0 when packing floats

The float whose bits are 0x3000_0000_0000_0000 is in the immediate range
and its packed word is the one reserved for 0.0, so it read back as zero.
Leave it to the heap representation.
---
 monoruby/src/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value.rs b/monoruby/src/value.rs
index 6b38de0..08861b8 100644
--- a/monoruby/src/value.rs
+++ b/monoruby/src/value.rs
@@ -3420,7 +3420,8 @@ impl Immediate {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        // 0x3000_0000_0000_0000 (2^-255) would share its word with FLOAT_ZERO.
+        if (exp & 0b0110) == 0b0100 && unum != 0x3000_0000_0000_0000 {
             Some(unsafe { Self::from_u64_unchecked(((unum.rotate_left(3)) & !1) | 2) })
         } else {
             None
-- 
2.43.0


From 0ee8b3fce1f44567e327a0e712aa13cd4bcef1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:05 +0000
Subject: [PATCH 04/21] fix: refuse negative byte counts in Marshal data

A length read as a negative integer becomes a huge usize, and adding it to
the position overflowed before it could be compared with the data length.
---
 monoruby/src/builtins/marshal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 28e51a3..89f8618 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -185,7 +185,7 @@ impl<'a> MarshalReader<'a> {
     }
 
     fn read_bytes(&mut self, n: usize) -> Result<&'a [u8]> {
-        if self.pos + n > self.data.len() {
+        if n > self.data.len() - self.pos {
             return Err(MonorubyErr::argumenterr("marshal data too short"));
         }
         let slice = &self.data[self.pos..self.pos + n];
-- 
2.43.0


From 0daaf36948d17a1fbc35ad7fcc8ee010d79b357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:05 +0000
Subject: [PATCH 05/21] fix: refuse Marshal integers that do not fit in 32 bits

Four-byte integers beyond the 32-bit range wrapped around, so that
positive data read as a negative number and the other way round.
---
 monoruby/src/builtins/marshal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/marshal.rs b/monoruby/src/builtins/marshal.rs
index 89f8618..4bae40d 100644
--- a/monoruby/src/builtins/marshal.rs
+++ b/monoruby/src/builtins/marshal.rs
@@ -215,7 +215,8 @@ impl<'a> MarshalReader<'a> {
                 for i in 0..nbytes {
                     result |= (bytes[i] as u32) << (i * 8);
                 }
-                Ok(result as i32)
+                i32::try_from(result)
+                    .map_err(|_| MonorubyErr::argumenterr("marshal integer out of range"))
             } else {
                 // small positive: b - 5
                 Ok(b as i32 - 5)
@@ -232,7 +233,11 @@ impl<'a> MarshalReader<'a> {
                     result &= !(0xff << (i * 8));
                     result |= (bytes[i] as u32) << (i * 8);
                 }
-                Ok(result as i32)
+                if (result as i32) < 0 {
+                    Ok(result as i32)
+                } else {
+                    Err(MonorubyErr::argumenterr("marshal integer out of range"))
+                }
             } else {
                 // small negative: b + 5
                 Ok(b as i32 + 5)
-- 
2.43.0


From b1f71925c3ea86fee6390b5e5d407adeb3298851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:05 +0000
Subject: [PATCH 06/21] fix: unpack the 5- and 6-byte UTF-8 forms that
 pack("U") writes

---
 monoruby/src/value/rvalue/string/pack.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 2310928..91d9ec7 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1955,6 +1955,17 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
             | ((b1 as u32 & 0x3F) << 12)
             | ((b2 as u32 & 0x3F) << 6)
             | (b3 as u32 & 0x3F))
+    } else if first & 0xF8 == 0xF8 {
+        // The 5- and 6-byte forms `utf8_encode_one` writes above 0x1FFFFF.
+        let mut cp = first as u32 & 0x03;
+        let len = if first & 0xFC == 0xF8 { 4 } else { 5 };
+        for _ in 0..len {
+            let next = b
+                .next()
+                .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
+            cp = (cp << 6) | (next as u32 & 0x3F);
+        }
+        Ok(cp)
     } else {
         Err(MonorubyErr::argumenterr("malformed UTF-8 character"))
     }
-- 
2.43.0


From 985898056195a2023b0a492d9f26647fe988ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:05 +0000
Subject: [PATCH 07/21] fix: unpack BER compressed integers of any size

---
 monoruby/src/value/rvalue/string/pack.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 91d9ec7..44a39fb 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1973,11 +1973,23 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
     let mut val: u64 = 0;
+    // Takes over from `val` once the next 7 bits would not fit.
+    let mut big: Option<num::BigInt> = None;
     loop {
         if let Some(byte) = b.next() {
-            val = (val << 7) | (byte & 0x7F) as u64;
+            let bits = byte & 0x7F;
+            if let Some(v) = big.take() {
+                big = Some((v << 7u32) | num::BigInt::from(bits));
+            } else if val >> 57 != 0 {
+                big = Some((num::BigInt::from(val) << 7u32) | num::BigInt::from(bits));
+            } else {
+                val = (val << 7) | bits as u64;
+            }
             if byte & 0x80 == 0 {
-                return Ok(Value::integer(val as i64));
+                return Ok(match big {
+                    Some(v) => Value::bigint(v),
+                    None => Value::integer_from_u64(val),
+                });
             }
         } else {
             return Err(MonorubyErr::argumenterr("malformed BER compressed integer"));
-- 
2.43.0


From 26ad5abb6dd692f9075a3f22a69443f0360c8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:05 +0000
Subject: [PATCH 08/21] fix: round the base64 line length down to whole groups

---
 monoruby/src/value/rvalue/string/pack.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 44a39fb..2d8db7c 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1423,12 +1423,9 @@ const BASE64_CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwx
 fn base64_encode(data: &[u8], line_len: usize) -> String {
     let mut result = String::new();
     let mut col = 0;
-    // line_len is the number of input bytes per line (default 45 -> 60 output chars)
-    let chars_per_line = if line_len == 0 {
-        0
-    } else {
-        (line_len / 3) * 4 + if line_len % 3 != 0 { 4 } else { 0 }
-    };
+    // line_len is the number of input bytes per line (default 45 -> 60 output chars),
+    // floored to a multiple of 3.
+    let chars_per_line = (line_len / 3) * 4;
 
     for chunk in data.chunks(3) {
         let b0 = chunk[0] as u32;
-- 
2.43.0


From 3b242e395bde1de96fbedc31f7f7ee0417f54198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:05 +0000
Subject: [PATCH 09/21] fix: allow uuencoded lines of up to 63 bytes

---
 monoruby/src/value/rvalue/string/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 2d8db7c..2e4c37d 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1624,7 +1624,7 @@ fn uu_encode(data: &[u8], line_len: usize) -> String {
     let bytes_per_line = if line_len == 0 {
         45
     } else {
-        (line_len.min(45) / 3) * 3
+        (line_len.min(63) / 3) * 3
     };
 
     for chunk in data.chunks(bytes_per_line) {
-- 
2.43.0


From ae9936f9d844dc163f5e5468663d5a116bc5fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:19 +0000
Subject: [PATCH 10/21] fix: expand braces after a stray closing brace

---
 monoruby/src/builtins/fnmatch.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 4379a1a..627c78d 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -289,7 +289,6 @@ pub(crate) fn expand_braces(pattern: &str, noescape: bool) -> Vec<String> {
                         }
                         return results;
                     }
-                    break;
                 }
             }
             _ => {}
-- 
2.43.0


From 26a04c2f1488b70b9f11d67fb85d87246886a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:19 +0000
Subject: [PATCH 11/21] fix: let only a leading period match a leading period
 in fnmatch

---
 monoruby/src/builtins/fnmatch.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 627c78d..753efbf 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -114,6 +114,16 @@ fn match_segment_chars(pat: &[char], s: &[char], flags: u32, guard_start: bool)
         !dotmatch && guard_start && si == 0 && s.first() == Some(&'.')
     };
 
+    // A leading period is matched only by a period that comes first in the
+    // pattern: `*.rb` does not match `.rb`.
+    let first = match pat {
+        ['\\', c, ..] if !noescape => Some(c),
+        _ => pat.first(),
+    };
+    if guarded(0) && first != Some(&'.') {
+        return false;
+    }
+
     let mut pi = 0;
     let mut si = 0;
     // Backtrack state for the most recent `*`.
-- 
2.43.0


From db83bae3a845758eff464c654d1b98ea72ed9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:11:42 +0000
Subject: [PATCH 12/21] fix: round negative rationals to the nearest integer

---
 monoruby/src/value/rvalue/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 0d8698c..27138b0 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -273,9 +273,9 @@ impl RationalInner {
             let abs_doubled = doubled.abs();
             let abs_den = self.den.abs();
             let result = if abs_doubled > abs_den {
-                if self.num >= BigInt::ZERO { q + 1 } else { q }
+                if self.num >= BigInt::ZERO { q + 1 } else { q - 1 }
             } else if abs_doubled < abs_den {
-                if self.num >= BigInt::ZERO { q } else { q }
+                q
             } else {
                 // Exactly half
                 match half {
-- 
2.43.0


From 4db10496c2ece97cb801d1276c33c79bb3ab79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:11:42 +0000
Subject: [PATCH 13/21] fix: keep the fraction when flooring a rational to tens
 or above

---
 monoruby/src/value/rvalue/rational.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 27138b0..c399532 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -206,8 +206,9 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(floored, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            RationalFloorResult::Integer(num::integer::Integer::div_floor(&i, &d) * &d)
+            let scaled_den = &self.den * &d;
+            let floored = num::integer::Integer::div_floor(&self.num, &scaled_den);
+            RationalFloorResult::Integer(floored * &d)
         }
     }
 
@@ -230,10 +231,10 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(ceiled, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // ceil = -floor(-i, d)
-            let neg_i = -&i;
-            let floored = num::integer::Integer::div_floor(&neg_i, &d);
+            // ceil = -floor(-self)
+            let scaled_den = &self.den * &d;
+            let neg_num = -&self.num;
+            let floored = num::integer::Integer::div_floor(&neg_num, &scaled_den);
             RationalFloorResult::Integer(-floored * &d)
         }
     }
-- 
2.43.0


From 4e2006de1a023e21ba94b5bd3eb1796d3bf4629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:11:42 +0000
Subject: [PATCH 14/21] fix: keep the fraction when rounding a rational to tens
 or above

---
 monoruby/src/value/rvalue/rational.rs | 39 ++++-----------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index c399532..ca7d226 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -314,41 +314,12 @@ impl RationalInner {
             }
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // Round the integer at the given digit position
-            let (q, r) = num::integer::Integer::div_rem(&i, &d);
-            let doubled = &r * BigInt::from(2);
-            let abs_doubled = doubled.abs();
-            let result = if abs_doubled > d.abs() {
-                if i >= BigInt::ZERO {
-                    (q + 1) * &d
-                } else {
-                    (q - 1) * &d
-                }
-            } else if abs_doubled < d.abs() {
-                q * &d
+            let scaled = Self::new(self.num.clone(), &self.den * &d);
+            if let RationalFloorResult::Integer(rounded) = scaled.rational_round(0, half) {
+                RationalFloorResult::Integer(rounded * &d)
             } else {
-                match half {
-                    Some(crate::value::RoundHalf::Down) => q * &d,
-                    Some(crate::value::RoundHalf::Even) => {
-                        if (&q % 2u32).is_zero() {
-                            q * &d
-                        } else if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                    _ => {
-                        if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                }
-            };
-            RationalFloorResult::Integer(result)
+                unreachable!()
+            }
         }
     }
 
-- 
2.43.0


From 888d82cd4f9a72585598c64909da33b837a3201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:31 +0000
Subject: [PATCH 15/21] fix: return the comparison error from
 HashSet::get_or_insert_with

An error raised while comparing the freshly built value with the query was
swallowed and turned into a panic.
---
 hashbrown/src/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From fe586ab01998290a175ce62ad8be4ec1e518e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:26 +0000
Subject: [PATCH 16/21] fix: report capacity overflow in reserve instead of
 wrapping

Adding the requested room to the element count could wrap around in builds
without overflow checks. The table then returned without reserving anything.
---
 hashbrown/src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index e3cdbf6..279e776 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2457,7 +2457,10 @@ impl RawTableInner {
         drop: Option<unsafe fn(*mut u8)>,
     ) {
         // Avoid `Option::ok_or_else` because it bloats LLVM IR.
-        let new_items = self.items + additional;
+        let new_items = self
+            .items
+            .checked_add(additional)
+            .expect("Hash table capacity overflow");
         let full_capacity = bucket_mask_to_capacity(self.bucket_mask);
         if new_items <= full_capacity / 2 {
             // Rehash in-place without re-allocating if we have plenty of spare
-- 
2.43.0


From e623228aa7264b0f2d4952a825e7701152efb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:54 +0000
Subject: [PATCH 17/21] fix: leave only counted elements behind when a hash
 callback panics during an in-place rehash

---
 hashbrown/src/raw/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 279e776..14bce7d 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2682,13 +2682,13 @@ impl RawTableInner {
         self.prepare_rehash_in_place();
 
         let mut guard = guard(self, move |self_| {
-            if let Some(drop) = drop {
-                for i in 0..self_.buckets() {
-                    if *self_.ctrl(i) == Tag::DELETED {
-                        self_.set_ctrl(i, Tag::EMPTY);
+            for i in 0..self_.buckets() {
+                if *self_.ctrl(i) == Tag::DELETED {
+                    self_.set_ctrl(i, Tag::EMPTY);
+                    if let Some(drop) = drop {
                         drop(self_.bucket_ptr(i, size_of));
-                        self_.items -= 1;
                     }
+                    self_.items -= 1;
                 }
             }
             self_.growth_left = bucket_mask_to_capacity(self_.bucket_mask) - self_.items;
-- 
2.43.0


From a6884e675f083258e6abd97dd919cee3d09ea7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:22:13 +0000
Subject: [PATCH 18/21] fix: give a partial line back when reading a line is
 interrupted

A line read that had already taken pushed-back or buffered bytes lost them
when a signal or a blocked descriptor stopped it before the line ended.
---
 monoruby/src/value/rvalue/io.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index b91ba9e..15429a3 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1489,8 +1489,17 @@ impl IoInner {
                 }
                 None => {
                     let mut line = self.take_pushback(None);
-                    if let Some(rest) = self.read_line_bytes_underlying()? {
-                        line.extend_from_slice(&rest);
+                    match self.read_line_bytes_underlying() {
+                        Ok(Some(rest)) => line.extend_from_slice(&rest),
+                        Ok(None) => {}
+                        Err(err) => {
+                            // See `read_more_preserving`: the retried
+                            // getline must see the drained bytes again.
+                            if err.is_signal_interrupt() || err.is_would_block_interrupt() {
+                                let _ = self.unget(&line);
+                            }
+                            return Err(err);
+                        }
                     }
                     // `line` is non-empty: the pushback supplied at least
                     // one byte.
-- 
2.43.0


From b4649c1354022eec82afc0400cb7817b7ac09db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:22:13 +0000
Subject: [PATCH 19/21] fix: keep the first byte after a paragraph read from
 standard input

Paragraph mode read one byte past the blank lines and pushed it back, but
standard input has no push-back buffer, so the byte was lost.
---
 monoruby/src/value/rvalue/io.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 15429a3..c707626 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -377,6 +377,18 @@ fn read_partial_chunk<T: Read>(
     Ok(chunk)
 }
 
+/// Drop the newlines `reader` is standing at, and nothing else. A failed
+/// read merely ends the search: the next paragraph read skips leading
+/// newlines anyway.
+fn swallow_newlines(reader: &mut impl BufRead) {
+    loop {
+        match reader.fill_buf() {
+            Ok(avail) if avail.first() == Some(&b'\n') => reader.consume(1),
+            _ => return,
+        }
+    }
+}
+
 /// How many more bytes are needed to complete a UTF-8 character that
 /// `buf` may end in the middle of. 0 when the tail is a complete
 /// character (or invalid, in which case there is nothing to complete).
@@ -1662,6 +1674,11 @@ impl IoInner {
                     // Swallow any further blank lines so the stream is
                     // positioned at the start of the next paragraph
                     // (CRuby's swallow(io, '\n')).
+                    if let IoKind::Stdin = self.kind {
+                        // No pushback there: look before taking.
+                        swallow_newlines(&mut *stdin_buf());
+                        return Ok(Some(buf));
+                    }
                     loop {
                         match self.read1_preserving(&buf)? {
                             Some(b'\n') => continue,
-- 
2.43.0


From 094b1052a3b2dff04091ae1a79d5a8073216b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:01 +0000
Subject: [PATCH 20/21] fix: forget the bytes pushed back when an IO object is
 moved to another position

---
 monoruby/src/value/rvalue/io.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index c707626..0acb106 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1812,7 +1812,21 @@ impl IoInner {
                         _ => std::io::Error::from_raw_os_error(EINTR),
                     });
                 }
-                Rc::get_mut(file).unwrap().reader.seek(seek_from)
+                let fdesc = Rc::get_mut(file).unwrap();
+                let ahead = fdesc.pushback.borrow().len() as i64;
+                if ahead == 0 || (whence == 1 && offset == 0) {
+                    return fdesc.reader.seek(seek_from);
+                }
+                // Moving forgets the pushed-back bytes, which count as not
+                // yet read (CRuby's io_unread). Only a zero SEEK_CUR, by
+                // which `IO#pos` asks for the position, keeps them.
+                let seek_from = match seek_from {
+                    SeekFrom::Current(n) => SeekFrom::Current(n.saturating_sub(ahead)),
+                    other => other,
+                };
+                let pos = fdesc.reader.seek(seek_from)?;
+                fdesc.pushback.borrow_mut().clear();
+                Ok(pos)
             }
             IoKind::Closed(..) => Err(std::io::Error::from_raw_os_error(9)), // EBADF
             _ => Err(std::io::Error::from_raw_os_error(ESPIPE)),
-- 
2.43.0


From 2635e4f259da08a6c129e97df880c51b278568f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:01 +0000
Subject: [PATCH 21/21] fix: write where the reader stands in a file being read
 and written

---
 monoruby/src/value/rvalue/io.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 0acb106..7873e7f 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -988,6 +988,14 @@ impl IoInner {
             IoKind::Stdout => stdout_buf().write(data, progress, &signal_pending),
             IoKind::Stderr => stderr_buf().write(data, progress, &signal_pending),
             IoKind::File(file) => {
+                // Write where the reader stands, not where it has read
+                // ahead to (CRuby's io_unread). A pipe or socket cannot
+                // seek and keeps what it has buffered.
+                if let Some(fdesc) = Rc::get_mut(file)
+                    && !fdesc.reader.buffer().is_empty()
+                {
+                    let _ = fdesc.reader.seek(SeekFrom::Current(0));
+                }
                 let mut wbuf = file.wbuf.borrow_mut();
                 let mut sink: &std::fs::File = file.reader.get_ref();
                 wbuf.write(&mut sink, data, progress, &signal_pending)
-- 
2.43.0

