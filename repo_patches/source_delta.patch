From 8537b1a9da603694c0f6205bfed7b06c0be43283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 01/17] fix: count the ninth player's wins and ties

The winner mask was 8 bits wide, so in 9-player simulations the last
player's bit was shifted out and its wins and ties were lost.
---
 src/equity_calculator/simulator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..cf69c66 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -542,7 +542,8 @@ pub struct UnitResults {
 }
 
 impl Default for UnitResults {
-    fn default() -> Self {
+    fn default() -> Self {
+
         UnitResults { 
             wins: 0, 
             ties: 0, 
@@ -555,7 +556,8 @@ impl Default for UnitResults {
             rank: u8::MAX, 
             draw: 0,
             valid: false
-        }
+        }
+
     }
 }
 
@@ -1253,9 +1255,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From ca612f280d37fad2a2918d837f9934f221c86947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 02/17] fix: do not truncate split pots to whole units

Ties were divided with integer division in every batch, so equities were
off (NaN for a single tied deal of weight 1) and depended on how the work
was split into batches.
---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index cf69c66..14cd004 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1137,9 +1137,9 @@ impl Simulator {
                         }
                     } else {
                         results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch.wins_by_mask[i] as f64 / winner_count as f64;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += batch.wins_by_mask[i] as f64 / winner_count as f64;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From 3c2f6ede4c01567b11b15374230408ac58832d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 03/17] fix: reject range weights too large for u32

"AA@4294967346" overflowed while parsing the weight: a panic in debug
builds and a bogus weight of 50 in release builds.
---
 src/hand_range.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 4992e4c..fee207d 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -217,13 +217,12 @@ impl HandRange {
 
     fn parse_weight(&self, i: &mut usize, weight: &mut u8) -> bool {
         let backtrack = *i;
-        let mut number = 0;
+        let mut number: u32 = 0;
         loop {
             let digit = self.char_vec[*i].to_digit(10);
             match digit {
                 Some(num) => {
-                    number *= 10;
-                    number += num;
+                    number = number.saturating_mul(10).saturating_add(num);
                     *i += 1;
                 }
                 None => {
-- 
2.43.0


From 94f47629f9bc16569f9bc4205a189d2832763c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 04/17] fix: return an error for invalid card text

card_from_chars, card_from_str and flop_from_str computed 4 * 255 + suit
for unknown characters, which panics in debug builds and returns a card
that does not exist in release builds.
---
 src/hand_range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index fee207d..bf8ef86 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -460,6 +460,10 @@ pub fn card_from_chars<T: Iterator<Item = char>>(chars: &mut T) -> Result<u8, St
     let rank = char_to_rank(rank_char);
     let suit = char_to_suit(suit_char);
 
+    if rank == u8::MAX || suit == u8::MAX {
+        return Err("Invalid card".to_string());
+    }
+
     Ok(4 * rank + suit)
 }
 
-- 
2.43.0


From 539cd562aac2bca4d920f5d59b36dc2225fe6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 05/17] fix: accept pair spans in ascending order

"22-55" parsed to an empty range, although "55-22" works and unpaired
spans are accepted in both directions.
---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index bf8ef86..3660ac1 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -337,7 +337,7 @@ impl HandRange {
 
     fn add_combos_dash(&mut self, rank1: u8, rank2: u8, rank3: u8, rank4: u8, suited: bool, offsuited: bool, weight: u8){
         if rank1 == rank2 {
-            for r in rank3..=rank1{
+            for r in rank1.min(rank3)..=rank1.max(rank3){
                 self.add_combos(r, r, suited, offsuited, weight);
             }
         } else {
-- 
2.43.0


From f17f1e8dc3841eb0111c61493a9ef31c25b3e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 06/17] fix: keep the equity of hands that were never dealt at
 0

The equity of every hand outside of the range was 0/0 = NaN.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 14cd004..2bf26e4 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -583,7 +583,9 @@ impl AddAssign for UnitResults {
         self.ties += other.ties;
         self.total += other.total;
         self.corrected_ties += other.corrected_ties;
-        self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        if self.total > 0 {
+            self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        }
     }
 }
 
-- 
2.43.0


From fa621f7cf4042d586367184d7b786642dda4e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 07/17] fix: saturate the number of preflop combos

The product of the range sizes does not fit in 64 bits for seven or more
wide ranges, so a cancelled exact calculation panicked (or, wrapping to a
small number, could finish without looking at most deals).
---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 2bf26e4..824d1fe 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -972,7 +972,7 @@ impl Simulator {
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-            combo_count *= c.size() as u64;
+            combo_count = combo_count.saturating_mul(c.size() as u64);
         }
         combo_count
     }
-- 
2.43.0


From 436e1aa0658de11a90014b83474dd55e6cf6496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 08/17] fix: leave empty batches out of the standard deviation

Every thread ends with an update that holds no samples. It was counted as a
batch with an equity of 0, so the stdev of the results was far too high.
---
 src/equity_calculator/simulator.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 824d1fe..beb9614 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1153,13 +1153,16 @@ impl Simulator {
 
         results.eval_count += batch.eval_count;
         if !self.calc_exact {
-            results.batch_sum += batch_equity;
-            results.batch_sum2 += batch_equity * batch_equity;
-            results.batch_count += 1.0;
+            // the last update of a thread may hold no samples
+            if batch.eval_count > 0 {
+                results.batch_sum += batch_equity;
+                results.batch_sum2 += batch_equity * batch_equity;
+                results.batch_count += 1.0;
+            }
             results.stdev = (1e-9 + results.batch_sum2
-                - results.batch_sum * results.batch_sum / results.batch_count)
+                - results.batch_sum * results.batch_sum / results.batch_count.max(1.0))
                 .sqrt()
-                / results.batch_count;
+                / results.batch_count.max(1.0);
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
             tx.send(progress).unwrap();
-- 
2.43.0


From 4865e42f09457755bc05d6400c66ad8ca88474b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 09/17] fix: do not stop a simulation after its first batch

The standard deviation between batches is about 3e-5 when there is just one
batch, so approx_equity stopped after it for any target above that and the
result was off by many times the target.
---
 src/equity_calculator/simulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index beb9614..d9afc82 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,8 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
+/// Batches needed before the standard deviation between them means anything
+const MIN_BATCH_COUNT: f64 = 32.;
 
 #[derive(Debug, Clone)]
 pub enum SimulatorError {
@@ -1168,7 +1170,10 @@ impl Simulator {
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished
+                && results.batch_count >= MIN_BATCH_COUNT
+                && results.stdev < self.stdev_target
+            {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From d64937e52e5a37a36765fddec34c1db0662099bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 10/17] fix: keep the progress of a simulation within 0-100%

The callback of approx_equity received values up to 255.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index d9afc82..5cd41ad 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1166,7 +1166,9 @@ impl Simulator {
                 .sqrt()
                 / results.batch_count.max(1.0);
 
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0)
+                .min(results.batch_count / MIN_BATCH_COUNT * 100.0)
+                .min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From 22e812f951d06c88483e124d06b83abf2ed69d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:39 +0000
Subject: [PATCH 11/17] fix: do not overflow the counters with 6 or more
 players

The weight of every deal is the product of the weights of the hands, 100 each
by default, so the 64 bit counters overflowed: a panic in debug builds and
wrong equities in release builds.
---
 src/equity_calculator/simulator.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 5cd41ad..f1e4717 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -93,7 +93,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -201,7 +201,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -1315,6 +1315,31 @@ impl Simulator {
     }
 }
 
+/// Divides the weights of each range by their greatest common divisor
+///
+/// Only the ratios between the weights of a range matter to the equities. The
+/// weight of a deal is the product of the weights of all players, so unweighted
+/// ranges (every weight is 100) would overflow the counters with 6 or more players.
+fn reduce_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    let mut hand_ranges = hand_ranges.to_owned();
+    for range in &mut hand_ranges {
+        let mut divisor = 0u8;
+        for hand in &range.hands {
+            let (mut a, mut b) = (divisor, hand.2);
+            while b != 0 {
+                (a, b) = (b, a % b);
+            }
+            divisor = a;
+        }
+        if divisor > 1 {
+            for hand in &mut range.hands {
+                hand.2 /= divisor;
+            }
+        }
+    }
+    hand_ranges
+}
+
 fn randomize_board<R: Rng>(
     rng: &mut R,
     board: &mut Hand,
-- 
2.43.0


From 314a50d44ea2c321a73d8d1b698c9e843b980c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 12/17] hook: seedable rng and lock delays under
 cfg(pokers_verif)

---
 src/equity_calculator/simulator.rs |  10 ++-
 src/lib.rs                         |   5 ++
 src/verif_hooks.rs                 | 130 +++++++++++++++++++++++++++++
 3 files changed, 143 insertions(+), 2 deletions(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index f1e4717..bb0513b 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -9,11 +9,17 @@ use crate::string_lookup::{HAND_TO_INDEX, COMBO_TO_INDEX};
 use std::cmp::Ordering;
 
 use std::result::Result;
-use std::sync::{Arc, Mutex, RwLock};
+use std::sync::Arc;
+#[cfg(not(pokers_verif))]
+use std::sync::{Mutex, RwLock};
+#[cfg(pokers_verif)]
+use crate::verif_hooks::{rng, Mutex, RwLock};
 
 use rand::distr::{Distribution, Uniform};
 use rand::rngs::SmallRng;
-use rand::{rng, Rng, SeedableRng};
+#[cfg(not(pokers_verif))]
+use rand::rng;
+use rand::{Rng, SeedableRng};
 
 use super::CombinedRange;
 use crate::constants::{CARD_COUNT, SUIT_COUNT, HAND_CATEGORY_OFFSET};
diff --git a/src/lib.rs b/src/lib.rs
index a3e461b..26d0083 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,8 @@
 //! let rank = final_score / 4096; // or final_score >> 12
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 pub mod constants;
 pub mod hand_evaluator;
 pub mod hand_range;
@@ -55,6 +57,9 @@ pub mod flush_lookup;
 pub mod hash_offsets;
 pub mod map;
 
+#[cfg(pokers_verif)]
+pub mod verif_hooks;
+
 pub use hand_range::{HandRange, get_card_mask};
 pub use equity_calculator::{exact_equity, approx_equity, SimulationResults, UnitResults, SimulatorError};
 pub use hand_evaluator::*;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..1c85caf
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,130 @@
+//! Test instrumentation, only compiled with `--cfg pokers_verif`.
+//!
+//! * `rng()` stands in for `rand::rng()`: the calling thread can seed it, which
+//!   makes a single threaded `approx_equity()` reproducible.
+//! * `Mutex` and `RwLock` stand in for the ones of `std::sync`: they can be asked
+//!   to delay the calling thread before a lock is taken, to reach schedules in
+//!   which other threads get the lock in between two of its critical sections.
+
+use rand::rngs::StdRng;
+use rand::{RngCore, SeedableRng};
+use std::cell::Cell;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::{LockResult, MutexGuard, RwLockReadGuard, RwLockWriteGuard};
+
+thread_local! {
+    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
+    static STATE: Cell<u64> = const { Cell::new(0) };
+}
+
+static MAX_DELAY_MICROS: AtomicU64 = AtomicU64::new(0);
+static DELAY_SEED: AtomicU64 = AtomicU64::new(0);
+
+/// Seeds (or, with `None`, stops seeding) the generators that this thread gets from `rng()`
+pub fn set_rng_seed(seed: Option<u64>) {
+    SEED.with(|s| s.set(seed));
+}
+
+/// Delays threads by up to `max_micros` before they take a lock; 0 turns it off
+pub fn set_lock_delays(max_micros: u64, seed: u64) {
+    DELAY_SEED.store(seed, Ordering::SeqCst);
+    MAX_DELAY_MICROS.store(max_micros, Ordering::SeqCst);
+}
+
+/// A generator seeded by `set_rng_seed()`, or else by the operating system
+pub fn rng() -> StdRng {
+    match SEED.with(|s| s.get()) {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => {
+            let mut seed = [0u8; 32];
+            rand::rng().fill_bytes(&mut seed);
+            StdRng::from_seed(seed)
+        }
+    }
+}
+
+fn delay() {
+    let max = MAX_DELAY_MICROS.load(Ordering::Relaxed);
+    if max == 0 {
+        return;
+    }
+    let r = STATE.with(|s| {
+        let mut x = s.get();
+        if x == 0 {
+            x = DELAY_SEED.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed) | 1;
+        }
+        x ^= x << 13;
+        x ^= x >> 7;
+        x ^= x << 17;
+        s.set(x);
+        x
+    });
+    match r & 3 {
+        0 => {}
+        1 => std::thread::yield_now(),
+        _ => std::thread::sleep(std::time::Duration::from_micros((r >> 8) % max + 1)),
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Mutex(std::sync::Mutex::new(value))
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        delay();
+        self.0.lock()
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = std::sync::Mutex<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for Mutex<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    pub const fn new(value: T) -> Self {
+        RwLock(std::sync::RwLock::new(value))
+    }
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        delay();
+        self.0.read()
+    }
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        delay();
+        self.0.write()
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T> Deref for RwLock<T> {
+    type Target = std::sync::RwLock<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for RwLock<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        &mut self.0
+    }
+}
-- 
2.43.0


From b2ebda9fb7e3566fb62e20db4276f61d8aa9cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 13/17] fix: report ranges that cannot be dealt together

Ranges that are split over several combined ranges may leave no way to
deal a hand from each of them. The result was Ok with NaN equities.
---
 src/equity_calculator/simulator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index bb0513b..ead2e4f 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -142,6 +142,10 @@ pub fn exact_equity<F: Fn(u8)>(
     sim.fix_hand_weights(flag);
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 {
+        // no way to deal a hand from every range was found
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -253,6 +257,10 @@ pub fn approx_equity<F: Fn(u8)>(
     sim.fix_hand_weights(flag);
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 {
+        // no way to deal a hand from every range was found
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
-- 
2.43.0


From 3835dcef892fb4102fa4cbcefba4f67afd0a465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 14/17] hook: set a flag when a lock is taken for the n-th time

---
 src/verif_hooks.rs | 87 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 24 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 1c85caf..019a028 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -5,17 +5,47 @@
 //! * `Mutex` and `RwLock` stand in for the ones of `std::sync`: they can be asked
 //!   to delay the calling thread before a lock is taken, to reach schedules in
 //!   which other threads get the lock in between two of its critical sections.
+//!   They can also set a flag when they are taken for the n-th time: a cancel
+//!   token that is set at a definite point of a calculation.
 
 use rand::rngs::StdRng;
 use rand::{RngCore, SeedableRng};
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
 use std::ops::{Deref, DerefMut};
-use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::{LockResult, MutexGuard, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
+use std::sync::{Arc, LockResult, MutexGuard, RwLockReadGuard, RwLockWriteGuard};
 
 thread_local! {
     static SEED: Cell<Option<u64>> = const { Cell::new(None) };
     static STATE: Cell<u64> = const { Cell::new(0) };
+    static WATCH: RefCell<Option<Arc<Watch>>> = const { RefCell::new(None) };
+}
+
+/// Counts how often the locks of a calculation are taken
+#[derive(Debug)]
+pub struct Watch {
+    taken: AtomicU64,
+    at: u64,
+    flag: Arc<AtomicBool>,
+}
+
+impl Watch {
+    fn count(&self) {
+        if self.taken.fetch_add(1, Ordering::SeqCst) + 1 == self.at {
+            self.flag.store(true, Ordering::SeqCst);
+        }
+    }
+}
+
+/// The locks that this thread creates from now on set the flag just before any of them is
+/// taken for the `at`-th time (counted over all of them); `None` turns it off
+pub fn set_flag_at_lock(at: Option<(u64, Arc<AtomicBool>)>) {
+    let watch = at.map(|(at, flag)| Arc::new(Watch { taken: AtomicU64::new(0), at, flag }));
+    WATCH.with(|w| *w.borrow_mut() = watch);
+}
+
+fn watch() -> Option<Arc<Watch>> {
+    WATCH.with(|w| w.borrow().clone())
 }
 
 static MAX_DELAY_MICROS: AtomicU64 = AtomicU64::new(0);
@@ -44,7 +74,10 @@ pub fn rng() -> StdRng {
     }
 }
 
-fn delay() {
+fn before_lock(watch: &Option<Arc<Watch>>) {
+    if let Some(watch) = watch {
+        watch.count();
+    }
     let max = MAX_DELAY_MICROS.load(Ordering::Relaxed);
     if max == 0 {
         return;
@@ -67,64 +100,70 @@ fn delay() {
     }
 }
 
-#[derive(Debug, Default)]
-pub struct Mutex<T>(std::sync::Mutex<T>);
+#[derive(Debug)]
+pub struct Mutex<T> {
+    inner: std::sync::Mutex<T>,
+    watch: Option<Arc<Watch>>,
+}
 
 impl<T> Mutex<T> {
-    pub const fn new(value: T) -> Self {
-        Mutex(std::sync::Mutex::new(value))
+    pub fn new(value: T) -> Self {
+        Mutex { inner: std::sync::Mutex::new(value), watch: watch() }
     }
     pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
-        delay();
-        self.0.lock()
+        before_lock(&self.watch);
+        self.inner.lock()
     }
     pub fn into_inner(self) -> LockResult<T> {
-        self.0.into_inner()
+        self.inner.into_inner()
     }
 }
 
 impl<T> Deref for Mutex<T> {
     type Target = std::sync::Mutex<T>;
     fn deref(&self) -> &Self::Target {
-        &self.0
+        &self.inner
     }
 }
 
 impl<T> DerefMut for Mutex<T> {
     fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
+        &mut self.inner
     }
 }
 
-#[derive(Debug, Default)]
-pub struct RwLock<T>(std::sync::RwLock<T>);
+#[derive(Debug)]
+pub struct RwLock<T> {
+    inner: std::sync::RwLock<T>,
+    watch: Option<Arc<Watch>>,
+}
 
 impl<T> RwLock<T> {
-    pub const fn new(value: T) -> Self {
-        RwLock(std::sync::RwLock::new(value))
+    pub fn new(value: T) -> Self {
+        RwLock { inner: std::sync::RwLock::new(value), watch: watch() }
     }
     pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
-        delay();
-        self.0.read()
+        before_lock(&self.watch);
+        self.inner.read()
     }
     pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
-        delay();
-        self.0.write()
+        before_lock(&self.watch);
+        self.inner.write()
     }
     pub fn into_inner(self) -> LockResult<T> {
-        self.0.into_inner()
+        self.inner.into_inner()
     }
 }
 
 impl<T> Deref for RwLock<T> {
     type Target = std::sync::RwLock<T>;
     fn deref(&self) -> &Self::Target {
-        &self.0
+        &self.inner
     }
 }
 
 impl<T> DerefMut for RwLock<T> {
     fn deref_mut(&mut self) -> &mut Self::Target {
-        &mut self.0
+        &mut self.inner
     }
 }
-- 
2.43.0


From 46d4a5ad43360aa7ecfe0124947c5df7f65bb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 15/17] fix: let the ace count low in straight draws and nut
 straights

---
 src/hand_evaluator/hand.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hand_evaluator/hand.rs b/src/hand_evaluator/hand.rs
index b8de861..6647f2e 100644
--- a/src/hand_evaluator/hand.rs
+++ b/src/hand_evaluator/hand.rs
@@ -20,6 +20,11 @@ pub fn get_card_index(card1: u8, card2: u8) -> usize {
     unsafe {*CARD_MAP.get_unchecked(index) as usize}
 }
 
+/// Adds a bit for the ace below the one of the two
+fn with_low_ace(rank_mask: u16) -> u16 {
+    rank_mask << 1 | (rank_mask >> 12 & 1)
+}
+
 /// This function is very experimental.
 /// Usage not recommended.
 /// 1 - Straight Draw
@@ -33,7 +38,8 @@ pub fn get_card_index(card1: u8, card2: u8) -> usize {
 pub fn get_draw(hole_cards: Hand, board: Hand, rank: u8) -> u8 {
     let mut draw: u8 = 0;
     let hand = hole_cards.clone() + board.clone();
-    let rank_mask = hand.get_rank_mask();
+    // In straights the ace also counts below the two
+    let rank_mask = with_low_ace(hand.get_rank_mask());
     let get_backdoors = board.get_mask().count_ones() < 4;
     if rank < 4 {
         let mut oesd_mask: u16 = 0b1111;
@@ -43,10 +49,10 @@ pub fn get_draw(hole_cards: Hand, board: Hand, rank: u8) -> u8 {
         let mut gsd_mask_3: u16 = 0b11101;
         let mut dgsd_mask_1: u16 = 0b1011101;
         let mut dgsd_mask_2: u16 = 0b11011011;
-        for i in 0..10 {
+        for i in 0..11 {
             let masked_hand = rank_mask & oesd_mask;
             if masked_hand == oesd_mask {
-                if i == 0 || i == 9 {
+                if i == 0 || i == 10 {
                     draw |= 2; // Gutshot Stratight Draw
                 } else {
                     draw |= 1; // Open Ended Straight Draw
@@ -84,8 +90,8 @@ pub fn get_draw(hole_cards: Hand, board: Hand, rank: u8) -> u8 {
         }
     }
     if rank == 4 {
-        let mut mask: u16 = 0b1111100000000;
-        let board_mask = board.get_rank_mask();
+        let mut mask: u16 = 0b11111000000000;
+        let board_mask = with_low_ace(board.get_rank_mask());
         for _ in 0..10 {
             let masked_board = board_mask & mask;
             if masked_board.count_ones() >= 3 {
-- 
2.43.0


From 672b36ba8f0cb21f778167ecc85c332146d75bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 16/17] fix: do not set the caller's cancel token when a
 simulation reaches its target

---
 src/equity_calculator/simulator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index ead2e4f..341b7bd 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -665,8 +665,10 @@ struct Simulator {
     fixed_board: Hand,
     /// number of players
     n_players: usize,
-    /// has monte carlo sim stopped
+    /// has the calculation been cancelled by the caller
     stopped: Arc<AtomicBool>,
+    /// has monte carlo sim reached its target
+    finished: AtomicBool,
     /// final results
     results: RwLock<SimulationResults>,
     /// target stdev from each batch for monte carlo
@@ -698,6 +700,7 @@ impl Simulator {
             n_players,
             calc_exact,
             stopped: cancel_token,
+            finished: AtomicBool::new(false),
             enum_pos: Mutex::new(0u64),
             results: RwLock::new(SimulationResults::init(n_players)),
             stdev_target,
@@ -1053,7 +1056,9 @@ impl Simulator {
                     self.update_results(&tx, batch, hand_stats, false);
                     hand_stats = vec![UnitResults::default(); NUM_HANDS*self.n_players];
                     batch = SimulationResultsBatch::init(self.n_players);
-                    if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    if self.stopped.load(std::sync::atomic::Ordering::SeqCst)
+                        || self.finished.load(std::sync::atomic::Ordering::SeqCst)
+                    {
                         break;
                     }
                     if !self.randomize_hole_cards(
@@ -1190,7 +1195,7 @@ impl Simulator {
                 && results.batch_count >= MIN_BATCH_COUNT
                 && results.stdev < self.stdev_target
             {
-                self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
+                self.finished.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
             let progress = (*self.enum_pos.lock().unwrap() as f64 / self.get_preflop_combo_count() as f64 * 100.0) as u8;
-- 
2.43.0


From 96fc55f585261ed7e01ef109ecb6bc67b4854df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:49 +0000
Subject: [PATCH 17/17] fix: see the cancel token while no hands without common
 cards are found

The token was looked at after every 10000 evaluations only. With many wide
ranges the exact calculation may go through billions of combinations that have
cards in common before it evaluates anything, and could not be cancelled.
---
 src/equity_calculator/simulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 341b7bd..b014008 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -723,6 +723,10 @@ impl Simulator {
         // let randomize_order = postflop_combos > 10000 && preflop_combos <= 2 * MAX_LOOKUP_SIZE;
         loop {
             if enum_pos >= enum_end {
+                // it may take long to find hands without common cards
+                if enum_end > 0 && self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    break;
+                }
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
                 let (p, e) = self.reserve_batch(batch_size);
                 enum_pos = p;
-- 
2.43.0

