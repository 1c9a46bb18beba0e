From 0183de0f279c9b2c7c837f3c965ae414fc7dd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:39 +0000
Subject: [PATCH 01/15] fix: BitVec equality and hash ignored the last limb
 when the length is a multiple of 64

The mask (1 << (len % 64)) - 1 is zero for lengths that are a multiple of the word size, so the
entire last limb was dropped from comparison and hash: 64 zeros compared equal to 64 ones.
---
 src/bit_vec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..e9481a6 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1606,7 +1606,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
+            let masked_last_limb = self.data.last().unwrap() & mask;
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From 43484c9d715dd9c082b521fab4e1bfe9f82ad862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:39 +0000
Subject: [PATCH 02/15] fix: MaskedBitVec::get_bits returned 0 for unaligned
 64-bit reads

(1 << (len % 64)) - 1 is zero for len == 64, so a full-word read at an unaligned position was masked
to zero. In this branch len is at least 1 and at most 64, so the shift by 64 - len is always valid.
---
 src/bit_vec/mask.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..e21c4fd 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -156,7 +156,7 @@ where
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From 91095cdd8b0e610b4a91f4fe64d965419fbbde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:39 +0000
Subject: [PATCH 03/15] fix: Elias-Fano iterator last() and max() omitted the
 universe offset

last() returned the last element minus the first element of the vector instead of the element.
---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 0e80867ca5fb47499705281c626feaaa870f01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:57 +0000
Subject: [PATCH 04/15] fix: appending zero bits corrupted word-aligned bit
 vectors

append_bits(bits, 0) and append_bits_unchecked(bits, 0) pushed a limb when the length was a multiple
of 64, so the limb count no longer matched the length and later appends read and wrote the wrong limb.
Elias-Fano vectors with a lower width of zero rely on reading zero bits from the then empty lower
vector, so get_bits_unchecked returns 0 for an empty read without touching the data.
---
 src/bit_vec/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index e9481a6..189aea4 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,10 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +952,10 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -1196,6 +1204,10 @@ impl BitVec {
     #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
+        if len == 0 {
+            return 0;
+        }
+
         let partial_word = self.data[pos / WORD_SIZE] >> (pos % WORD_SIZE);
         if pos % WORD_SIZE + len <= WORD_SIZE {
             partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
-- 
2.43.0


From 03e8e8dbc2c7375ff76d30c60887ac6bb9cc1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:57 +0000
Subject: [PATCH 05/15] fix: bounds-checked multi-bit reads panicked instead of
 returning None

get_bits computed pos + len before comparing to the length, and unpack_element computed index * n,
both of which overflow for large arguments. RsVec::get_bits(len, 0) passed the bounds check but
indexed past the last limb.
---
 src/bit_vec/fast_rs_vec/mod.rs | 6 +++++-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..1197267 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -379,6 +379,10 @@ impl RsVec {
     #[allow(clippy::cast_possible_truncation)] // parameter must be out of scope for this to happen
     pub fn get_bits_unchecked(&self, pos: usize, len: usize) -> u64 {
         debug_assert!(len <= WORD_SIZE);
+        if len == 0 {
+            return 0;
+        }
+
         let partial_word = self.data[pos / WORD_SIZE] >> (pos % WORD_SIZE);
         if pos % WORD_SIZE + len <= WORD_SIZE {
             partial_word & 1u64.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1)
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index e21c4fd..e112413 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if len > self.vec.len || pos > self.vec.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 189aea4..de43436 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1174,7 +1174,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1244,7 +1244,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From f8848bbbd58c5ae20234c5f977285a7d80cd3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:31 +0000
Subject: [PATCH 06/15] fix: select iterators panicked in nth_back when all
 elements were skipped

Skipping exactly the remaining elements from the back moves the back cursor before rank 0, which
underflowed the subtraction instead of setting the cursor to None like next_back does.
---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From ed2ede26e2a11a5e23a8297d113eeac6a4a006d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:31 +0000
Subject: [PATCH 07/15] fix: nth and nth_back of vector iterators mishandled
 skips past the end

Skipping past the end returned None but left all elements in the iterator, contrary to the contract of
Iterator::nth and unlike the select iterators, and for very large n the index computation overflowed
(panicking, or in release mode moving the cursor backwards).
---
 src/util/elias_fano_iter.rs | 16 +++++++++++++---
 src/util/general_iter.rs    | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..b1cc1f1 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,7 +12,7 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if n > self.len() {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -113,7 +113,12 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // consume the remaining elements, as required by the contract of `nth`
+                    let remaining = self.len();
+                    self.advance_by(remaining).ok()?;
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +172,12 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // consume the remaining elements, as required by the contract of `nth_back`
+                    let remaining = self.len();
+                    self.advance_back_by(remaining).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..8f187e3 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,7 +32,7 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if n > self.len() {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -118,7 +118,12 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // consume the remaining elements, as required by the contract of `nth`
+                    let remaining = self.len();
+                    self.advance_by(remaining).ok()?;
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +153,12 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // consume the remaining elements, as required by the contract of `nth_back`
+                    let remaining = self.len();
+                    self.advance_back_by(remaining).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From 048ea7a27dff2128285572964196e31ff61cb49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:07 +0000
Subject: [PATCH 08/15] fix: range_min_with_range panicked on empty, inverted
 and unbounded-edge ranges

The documentation promises that the range is clamped and the call does not panic on a non-empty
structure, but ..0 underflowed, an excluded start of usize::MAX overflowed, and ranges whose end lies
before their start underflowed in range_min. Such ranges are now clamped to their start element.
---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From 79ecad023ed8bd32c9e35e897bfb9af87c35ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:07 +0000
Subject: [PATCH 09/15] fix: level and forward searches on empty and
 single-node BP trees

fwd_search and level_rightmost underflowed on an empty tree, level_leftmost(0) returned a handle for an
empty tree, and level_rightmost(0) did not find the root of a tree that consists only of the root.
---
 src/trees/bp/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..326562c 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -715,6 +715,11 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // the root is the only node on level 0, and bwd_search cannot return the input position
+        if level == 0 || self.is_empty() {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
         self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
-- 
2.43.0


From 089808a154a63e3ae788f100e1bfc6a28c926cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:07 +0000
Subject: [PATCH 10/15] fix: backward search in BP trees with block sizes that
 are not a multiple of the lookup size

The table lookups started at the block boundary and thus were not aligned with the position where the
bit-wise search stopped, so some bits were counted twice and open, enclose, parent and the
level-ancestor queries returned wrong nodes, for example for BpTree<12>.
---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 326562c..b062152 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.div_ceil(LOOKUP_BLOCK_SIZE as usize) * LOOKUP_BLOCK_SIZE as usize,
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the lower_lookup_boundary isn't the block_boundary (which happens if the block size isn't
+        // a multiple of the lookup block size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 85d6e7ba4872d7db4d81a672d5140164862fcef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:23 +0000
Subject: [PATCH 11/15] fix: wavelet matrix select overflowed for very large
 ranks

The position of the requested occurrence was computed as range_start + rank, which panics, or wraps
around and returns the index of some other symbol in release mode, instead of reporting that the
occurrence does not exist.
---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..5e5af8c 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -786,7 +786,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -866,7 +866,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From a2e8300e50eabfa14583a33b751189a4b86aa478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:23 +0000
Subject: [PATCH 12/15] fix: wavelet matrix range queries underflowed on
 inverted ranges

quantile, range_min and rank_range (and their u64 variants) subtracted the range bounds without
checking their order. Ranges whose start lies behind their end now yield None, like in rank_offset.
---
 src/wavelet/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 5e5af8c..577a921 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -456,7 +456,8 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
-        if range.start >= self.len()
+        if range.start > range.end
+            || range.start >= self.len()
             || range.end > self.len()
             || symbol.len() != self.bits_per_element()
         {
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start > range.end
+            || range.start >= self.len()
+            || range.end > self.len()
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1240,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From d3fbe3fa82779661ef89e5d5cf9f167facceba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:01 +0000
Subject: [PATCH 13/15] fix: bit set iterators repeated or invented positions
 in the last chunk

---
 src/bit_vec/fast_rs_vec/bitset.rs | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..e7b85cc 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,7 +91,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
+        if vec.len() > 0 {
             iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
         }
 
@@ -108,6 +108,11 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             if ZERO {
                 mask = !mask;
             }
+            // ignore the bits of the last chunk that are not part of the vector
+            let remaining = self.vec.len() - self.base;
+            if remaining < VECTOR_SIZE {
+                mask &= (1 << remaining) - 1;
+            }
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
             self.cursor = 0;
@@ -132,29 +137,8 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
         if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
+            self.load_next_chunk()?;
         }
 
         let offset = self.offsets[self.cursor as usize];
-- 
2.43.0


From deb6bac425a486e39ff369840a3dfce53e9a496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 14/15] fix: sparse vector membership of positions before the
 first 1-bit without bounds checking panicked

---
 src/bit_vec/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..42bd021 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // positions left of the first 1-bit have no predecessor
+        self.vec.predecessor(i).is_some_and(|p| p == i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From e608447e75c92a1e941375244e7841cf61cf503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:57 +0000
Subject: [PATCH 15/15] fix: level_rightmost panicked on unbalanced parenthesis
 sequences

size() * 2 - 1 underflows when the sequence contains no opening parenthesis;
the last position of the sequence is what the search has to start from.
---
 src/trees/bp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index b062152..9282714 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -739,7 +739,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
 
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search(self.vec.len() - 1, level as i64)?)
     }
 }
 
-- 
2.43.0

