From f4bc28ad3e9ff7ed7fc22e5d2616a7fa22743424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 01/18] fix: gear: GearIncr32::push returned the index before
 the consumed byte

The byte that completes a match has been consumed, so the edge is after it,
as find_chunk_edge() reports. Returning `i` made callers feed that byte again:
wrong chunks, and endless empty chunks when the byte matches on its own.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 84135869141de4571e974de8b5157bf7864d9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 02/18] fix: ram: RamIncr::push returned the index before the
 consumed byte

find_chunk_edge() places the edge after the byte that ends the chunk.
---
 src/ram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..a4a3718 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,7 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        // `RamState::push` gives the last byte of the chunk, the edge is after it
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From f664d300622889b99c20af7871aca6a0853faee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 03/18] fix: zstd: ZstdIncr::push returned the index before the
 consumed byte

The byte was already rotated into the window, so callers that continued from
the returned index fed it twice and corrupted the rolling hash.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From d1cc32bf650609f2886f20a472c49c88c5fa6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 04/18] fix: zstd: find_chunk_edge discarded unexamined data
 after an edge

After an edge everything but the last 32 bytes of `data` was discarded, so any
further edge in the same buffer was lost.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..17c24c0 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,7 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
+                // keep the window that precedes the edge, and all data after the edge
+                let discard_ct = i + 1 - RSYNC_LENGTH;
+                state.offset = RSYNC_LENGTH;
                 return (Some(i + 1), discard_ct);
             }
         }
-- 
2.43.0


From c97f5e0062a56b8347ead41298f55fe535f1b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 05/18] fix: zstd: find_chunk_edge panicked when given less
 data than before

A `data` that is not an extension of the previous one may give other split
points, but must not panic.
---
 src/zstd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 17c24c0..3d6efd5 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -193,7 +193,9 @@ impl Chunk for Zstd {
     ) -> (Option<usize>, usize) {
         if state.offset < RSYNC_LENGTH {
             // push some data in
-            let seed_b = &data[state.offset..std::cmp::min(RSYNC_LENGTH, data.len())];
+            let seed_b = data
+                .get(state.offset..std::cmp::min(RSYNC_LENGTH, data.len()))
+                .unwrap_or(&[]);
             state.append(seed_b);
             state.offset += seed_b.len();
 
-- 
2.43.0


From 8d8b3614b5d9986973d64c86fb82b7680185f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 06/18] fix: fastcdc: find_chunk_edge exceeded max_size and the
 data by one byte

At max_size no further byte has been examined, so the edge is at `i`, not
`i + 1`: the chunk had max_size + 1 bytes, and with data that ends at max_size
the returned edge and discard count were past the end of `data`.
---
 src/fastcdc.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..6fbc05e 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -76,7 +76,10 @@ impl<'a> Chunk for FastCdc<'a> {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            // the matching byte is part of the chunk
+            Some(Edge::Match(i)) => (Some(i + 1), i + 1),
+            // byte `i` (if there is one) was not examined
+            Some(Edge::MaxSize(i)) => (Some(i), i),
             None => (None, data.len()),
         }
     }
@@ -134,13 +137,21 @@ pub struct FastCdcState {
     fp: Wrapping<u64>,
 }
 
+/// Why `FastCdcState::push` ended the chunk
+enum Edge {
+    /// the fingerprint matched at this byte
+    Match(usize),
+    /// the chunk has the maximum size with the bytes before this index
+    MaxSize(usize),
+}
+
 impl FastCdcState {
     fn reset(&mut self) {
         self.l = 0;
         self.fp = Wrapping(0);
     }
 
-    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<usize> {
+    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<Edge> {
         // global start/index
         let mut gi = self.l;
         // global end
@@ -177,7 +188,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_S) == 0 {
                 self.reset();
-                return Some(i);
+                return Some(Edge::Match(i));
             }
 
             gi += 1;
@@ -188,7 +199,7 @@ impl FastCdcState {
             if gi >= params.max_size {
                 // no match found, emit fixed match at MAX_SIZE
                 self.reset();
-                return Some(i);
+                return Some(Edge::MaxSize(i));
             }
             if i >= data.len() {
                 break;
@@ -198,7 +209,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_L) == 0 {
                 self.reset();
-                return Some(i);
+                return Some(Edge::Match(i));
             }
 
             gi += 1;
@@ -215,6 +226,8 @@ impl FastCdcState {
 
 impl<'a> ChunkIncr for FastCdcIncr<'a> {
     fn push(&mut self, src: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, src)
+        match self.state.push(&self.params, src)? {
+            Edge::Match(i) | Edge::MaxSize(i) => Some(i),
+        }
     }
 }
-- 
2.43.0


From fe19293894d3050daa99e99fecc90b7eb9a30ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 07/18] fix: bup: RollSumIncr only handled windows with a power
 of two length

Masking the window offset skipped entries for any other RollSum::with_window().
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..a525cbb 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -198,7 +198,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From f2167452b5a68d4ae2a1ab1ef8a38021aadd6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 08/18] fix: bup: RollSumIncr::push did not reset after an edge

bup starts each blob with a fresh rolling sum, as find_chunk_edge() and the
rollsum crate do. Without it edges in the first window of a chunk differ.
---
 src/bup.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index a525cbb..4cb7ded 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -219,6 +219,15 @@ impl RollSumIncr {
     pub fn at_split(&self) -> bool {
         self.state.at_split()
     }
+
+    fn reset(&mut self) {
+        let params = RollSum::with_window(self.window.len());
+        self.state.reset(&params);
+        self.wofs = Wrapping(0);
+        for v in self.window.iter_mut() {
+            *v = 0;
+        }
+    }
 }
 
 impl ChunkIncr for RollSumIncr {
@@ -226,6 +235,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From 65ac043f5506b0efffc944633a63b082957f2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 09/18] fix: buzhash: bytes were not fully removed from the
 hash for k % 32 >= 8

A byte has been rotated k times when it leaves the window and the hash has 32
bits, so it is removed with a rotation of k % 32 (s**k in the module comment).
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From 1f68282eeabe88516ae5ee060f9e1679a53dcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 10/18] fix: buzhash: find_chunk_edge ignored max_chunk_size

BuzHashIncr honours it, so the two gave different chunks.
---
 src/buzhash.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..4967d45 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -132,21 +132,17 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
     ) -> (Option<usize>, usize) {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
+            state.chunk_len += 1;
 
             if (state.state.h & self.mask) == self.mask {
                 state.reset();
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if state.chunk_len > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -172,12 +168,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 #[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub struct BuzHashSearchState {
     offset: usize,
+    /// number of bytes since the previous edge
+    chunk_len: u64,
     state: BuzHashState,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.chunk_len = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From 7c2c7e465786dcf2f33985e8e7e2fc816c57a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 11/18] fix: mii: MiiIncr::push counted the first byte after an
 edge as an increment

`prev` is 0xff at the start of a chunk so that its first byte is no increment,
which find_chunk_edge() restored and push() did not.
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 888ab1b7c97c2cce108aa8e7a4c7c77e5facc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 12/18] fix: zpaq: find_chunk_edge counted one byte too many

`idx` already includes the byte, so minimum and maximum sizes were off by one
compared with ZpaqIncr and zpaq.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From a02c309f5bd511e958cc4efdf832e761ebc1149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 13/18] fix: zpaq: the default maximum size was 1024 times too
 large

The documented maximum for the default is 508 KiB (zpaq: 8128 << fragment,
where fragment is the average size in KiB).
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..c64fbd9 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From 9404ae56770924302498da8fbf605f74112d158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 14/18] fix: zpaq: with_max_size and with_range did not give an
 average of max / 4

go-dedup's fragment is in KiB, the callers here use bytes: 64 KiB gave an
average of 16 bytes above the minimum instead of 16 KiB.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index c64fbd9..8c11755 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -55,7 +55,7 @@ impl Zpaq {
     /* this is taken from go-dedup */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        (max as f64 / 4f64).log2() as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From 281e8d6656ff9e6c4898623d12bd3957171332cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 15/18] fix: zpaq: an average size of 2**0 overflowed

1 << 32 does not fit in u32: a panic, or without overflow checks a threshold of
1 (an average of 4 GiB). Reached through with_range(0..) and small maximums.
---
 src/zpaq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 8c11755..55236ea 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -48,7 +48,8 @@ use std::ops::RangeBounds;
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Zpaq {
     range: (Bound<u64>, Bound<u64>),
-    max_hash: u32,
+    /// up to and including `1 << 32`
+    max_hash: u64,
 }
 
 impl Zpaq {
@@ -90,7 +91,7 @@ impl Zpaq {
         max / 64..max
     }
 
-    fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
+    fn max_hash_from_fragment_ave(fragment_ave: u8) -> u64 {
         assert!(fragment_ave <= 32);
         1 << (32 - fragment_ave)
         /*
@@ -153,7 +154,7 @@ impl Zpaq {
     */
 
     fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+        (u64::from(hash) < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
     }
 }
 
-- 
2.43.0


From 4d6f7e24d76e0c6ff87cb7733d3a5ff198e4b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 16/18] fix: gear: averages of 2^0 and 2^32 overflowed in the
 mask, without overflow checks 2^32 cut after every byte

---
 src/gear.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gear.rs b/src/gear.rs
index 84a3247..9438ed5 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -120,12 +120,10 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
 }
 
 fn msb_mask(log2: usize) -> u32 {
-    // at least 1 bit & not all the bits
-    // FIXME: probably could relax those requirements with better math.
-    //debug_assert!(log2 > 0);
-    //debug_assert!(log2 < 32);
+    assert!(log2 <= 32);
 
-    ((1 << log2) - 1) << (32 - log2)
+    // in 64 bits, as either shift may be by all 32
+    (((1u64 << log2) - 1) << (32 - log2)) as u32
 }
 
 impl<'a> Gear32<'a> {
-- 
2.43.0


From f45d78940623e3bc426dae0ced0851dc6823db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 17/18] fix: pigz: 32 bits overflowed in the mask, without
 overflow checks they cut after every byte

---
 src/pigz.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pigz.rs b/src/pigz.rs
index 6c8a8dc..bd8052a 100644
--- a/src/pigz.rs
+++ b/src/pigz.rs
@@ -13,7 +13,9 @@ pub struct PigzRsyncable {
 
 impl PigzRsyncable {
     pub fn with_bits(bits: u8) -> PigzRsyncable {
-        let mask = (1 << bits) - 1;
+        assert!(bits <= 32);
+        // in 64 bits, as the shift may be by all 32
+        let mask = ((1u64 << bits) - 1) as u32;
         let hit = mask >> 1;
         PigzRsyncable { bits, mask, hit }
     }
-- 
2.43.0


From 5d0200d781283b93cdc54d45756647b1dbc096a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 18/18] fix: zpaq: with_range of a huge start wrapped in the
 average, which then was meaningless without overflow checks

---
 src/zpaq.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 55236ea..e69cd08 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -66,14 +66,15 @@ impl Zpaq {
             Bound::Excluded(i) => *i - 1,
             Bound::Unbounded => {
                 /* try to guess based on first */
-                64 * match range.start_bound() {
+                match range.start_bound() {
                     Bound::Included(i) => *i,
-                    Bound::Excluded(i) => *i + 1,
+                    Bound::Excluded(i) => i.saturating_add(1),
                     Bound::Unbounded => {
                         /* welp, lets use the default */
                         return 16;
                     }
                 }
+                .saturating_mul(64)
             }
         };
 
-- 
2.43.0

