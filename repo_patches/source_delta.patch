From d14ef8bdcd788f93cb4250ba3a50d1b010f37cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 01/37] fix: counter_agg ignores a duplicate timestamp when
 looking for resets

---
 crates/counter-agg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..ef5bc43 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -81,7 +81,8 @@ impl MetricSummary {
     }
 
     fn reset(&mut self, incoming: &TSPoint) {
-        if incoming.val < self.last.val {
+        // a point at the same time as the last one is ignored by `add_point`
+        if incoming.ts != self.last.ts && incoming.val < self.last.val {
             self.reset_sum += self.last.val;
             self.num_resets += 1;
         }
-- 
2.43.0


From abda13cc085f59112a06d2e47b4e85de33b36c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/37] fix: state_agg's final function leaves its transition
 state usable

---
 extension/src/state_aggregate.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..9aef768 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,10 +610,12 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            // the transition state may be used again (e.g. as a window function),
+            // so leave the records in place
+            for record in s.records.iter() {
                 if last_record_state
-                    .clone()
-                    .map(|last| last != record.state)
+                    .as_ref()
+                    .map(|last| *last != record.state)
                     .unwrap_or(true)
                 {
                     if let Some(prev) = merged_durations.last_mut() {
@@ -624,7 +626,7 @@ impl state_agg {
                         end_time: 0,
                         state: record.state.entry(&mut states),
                     });
-                    last_record_state = Some(record.state);
+                    last_record_state = Some(record.state.clone());
                 }
             }
             if let Some(last_time_in_state) = merged_durations.last_mut() {
-- 
2.43.0


From ae8f4ec3b00abc27f220a070622fe4a5cf569435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 03/37] fix: max_n and min_n final functions leave the
 transition state usable

---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..8c2a955 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..5cd777f 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..d36382b 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..0a3c8ab 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..93ea5f1 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..6d892a0 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
-- 
2.43.0


From a97ebe96dee133e0459202dce6bc5242a03ca1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 04/37] fix: max_n/min_n rollups keep adding values until the
 heap is full

---
 extension/src/nmost.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..f94bfda 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -44,7 +44,7 @@ impl<T: Ord> NMostTransState<T> {
 
     fn new_entry(&mut self, new_val: T) {
         // If at capacity see if we need to replace something
-        if self.heap.len() == self.capacity {
+        if self.is_full() {
             if !self.belongs_in_heap(&new_val) {
                 return;
             }
@@ -55,6 +55,10 @@ impl<T: Ord> NMostTransState<T> {
         self.heap.push(new_val)
     }
 
+    fn is_full(&self) -> bool {
+        self.heap.len() == self.capacity
+    }
+
     fn belongs_in_heap(&self, val: &T) -> bool {
         // Note that this will actually be '>' if T is a Reverse<...> type
         val < self.heap.peek().unwrap()
@@ -102,7 +106,7 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
             if let Some(mut state) = state {
                 for val in sorted_vals {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    if state.is_full() && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -267,7 +271,11 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    if state.values.is_full()
+                        && !state
+                            .values
+                            .belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From 4c5daad694e65434a15e620e5aaaef9e7f7793f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 05/37] fix: heartbeat trim_to handles ranges that hold no live
 range and ends at the epoch

---
 extension/src/heartbeat_agg.rs           | 71 ++++++++----------------
 extension/src/heartbeat_agg/accessors.rs |  2 +-
 2 files changed, 25 insertions(+), 48 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..6d49f7b 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -213,63 +213,40 @@ ron_inout_funcs!(HeartbeatAgg<'input>);
 
 impl HeartbeatAgg<'_> {
     fn trim_to(self, start: Option<i64>, end: Option<i64>) -> HeartbeatAgg<'static> {
-        if (start.is_some() && start.unwrap() < self.start_time)
-            || (end.is_some() && end.unwrap() > self.end_time)
-        {
+        let low = start.unwrap_or(self.start_time);
+        let high = end.unwrap_or(self.end_time);
+        if low < self.start_time || high > self.end_time || low > high {
             error!("Can not query beyond the original aggregate bounds");
         }
 
         let mut starts: Vec<i64> = vec![];
         let mut ends: Vec<i64> = vec![];
-        for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
-        }
-
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
+        // without any live range, the last heartbeat can't have been later than this
+        let mut last_seen = low - self.interval_len;
+        for (start, end) in self.interval_starts.iter().zip(self.interval_ends.iter()) {
+            if end <= low || start >= high {
+                continue;
             }
-            idx
-        } else {
-            0
-        };
-
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
-                }
-                idx
+            starts.push(max(start, low));
+            ends.push(min(end, high));
+            // the last live range may have been cut off at the end of the aggregate
+            let last = if end == self.end_time {
+                self.last_seen
             } else {
-                self.num_intervals as usize - 1
-            }
-        } else {
-            self.num_intervals as usize - 1
-        };
+                end - self.interval_len
+            };
+            last_seen = min(last, high);
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time: low,
+                end_time: high,
+                last_seen,
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
@@ -589,7 +566,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == i64::MAX {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..a417577 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -141,7 +141,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(i64::MAX);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From 0033e94199519eef663ce0601d31fe95aec32a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 06/37] fix: tdigest rank of the minimum or maximum value is
 not NaN

---
 crates/t-digest/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..f21dd7b 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -551,6 +551,9 @@ impl TDigest {
             (accum_weight as f64
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
                 / self.count as f64
+        } else if weighted_midpoint <= low_bound {
+            // v is exactly the minimum or maximum, so there is no distance to interpolate over
+            accum_weight as f64 / self.count as f64
         } else {
             (accum_weight as f64
                 - (weighted_midpoint - v) / (weighted_midpoint - low_bound) * low_weight as f64
-- 
2.43.0


From de23ca1dd29cc4b2d8269258fb1cbda28feea97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 07/37] fix: delta of an empty timevector is empty instead of
 an internal error

---
 extension/src/time_vector/pipeline/delta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..2fb548b 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,7 +37,8 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
+    // an empty series has no deltas
+    let mut prev = it.next().map_or(f64::NAN, |pt| pt.val);
     let mut delta_points = Vec::new();
 
     for pt in it {
-- 
2.43.0


From e0f7c56ee93d8f62ea5fab4ec78dce9497b00006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 08/37] fix: fill_to rejects intervals that never reach the
 next point

---
 extension/src/time_vector/pipeline/fill_to.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..d79d68a 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -94,6 +94,10 @@ pub fn fill_to<'s>(
         _ => unreachable!(),
     };
 
+    if interval <= 0 {
+        panic!("fill_to requires a positive interval")
+    }
+
     if !series.is_sorted() {
         panic!("Timevector must be sorted prior to passing to fill_to")
     }
-- 
2.43.0


From 592cb3735c1cefce88f8f2d548d7893dbc6f9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 09/37] fix: gp_lttb counts a single last point as one endpoint

---
 extension/src/lttb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..36022d7 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -167,6 +167,10 @@ pub fn gap_preserving_lttb_final_inner(
                     start = i + 1;
                 }
             }
+            if start == count - 1 {
+                // the last run is a single point: it is its own start and end
+                endpoints_remaining -= 1;
+            }
 
             let mut points_remaining = state.resolution as i64;
             let mut downsampled = vec![];
-- 
2.43.0


From 9f08dd3cac34456ae6af581772d90689b4042ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 10/37] fix: topn of an mcv aggregate rejects a negative N
 instead of looping

---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..9ce1f34 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1415,6 +1415,10 @@ fn validate_topn_for_mcv_agg(
         return;
     }
 
+    if n < 0 {
+        pgrx::error!("requested N ({}) must not be negative", n)
+    }
+
     // TODO: should we allow this if we have enough data?
     if n > topn as i32 {
         pgrx::error!(
-- 
2.43.0


From 9ac65c4d11dc904ba2c8e90ceef1b2851c7a76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/37] fix: rolling accepts a window that starts with NULL
 summaries

---
 extension/src/stats_agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extension/src/stats_agg.rs b/extension/src/stats_agg.rs
index f025fc0..1f8b4a7 100644
--- a/extension/src/stats_agg.rs
+++ b/extension/src/stats_agg.rs
@@ -506,6 +506,10 @@ pub fn stats1d_summary_trans_inner(
 ) -> Option<Inner<StatsSummary1D>> {
     unsafe {
         in_aggregate_context(fcinfo, || match (state, value) {
+            // a moving-aggregate transition must not return NULL
+            (None, None) => {
+                Some(StatsSummary1D::from_internal(InternalStatsSummary1D::new()).into())
+            }
             (state, None) => state,
             (None, Some(value)) => Some(value.in_current_context().into()),
             (Some(state), Some(value)) => {
@@ -534,6 +538,10 @@ pub fn stats2d_summary_trans_inner(
 ) -> Option<Inner<StatsSummary2D>> {
     unsafe {
         in_aggregate_context(fcinfo, || match (state, value) {
+            // a moving-aggregate transition must not return NULL
+            (None, None) => {
+                Some(StatsSummary2D::from_internal(InternalStatsSummary2D::new()).into())
+            }
             (state, None) => state,
             (None, Some(value)) => Some(value.in_current_context().into()),
             (Some(state), Some(value)) => {
-- 
2.43.0


From 0b44c7d3b8cfb0cd3313f511400338e965b6bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 12/37] fix: filter moves the null markers along with the
 points it keeps

---
 extension/src/time_vector/pipeline/filter.rs | 23 ++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..36b245d 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,27 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
-    series.num_points = series.points.len() as _;
+    let keep: Vec<bool> = series.points.iter().map(|p| func(p.ts, p.val)).collect();
+
+    // null_val holds a bit per point: move the kept points' bits along with them
+    let kept = keep.iter().filter(|keep| **keep).count();
+    let mut null_val = std::vec::from_elem(0_u8, kept.div_ceil(8));
+    let mut has_nulls = false;
+    let kept_indexes = (0..keep.len()).filter(|i| keep[*i]);
+    for (new_idx, old_idx) in kept_indexes.enumerate() {
+        if series.has_nulls() && series.is_null_val(old_idx) {
+            null_val[new_idx / 8] |= 1 << (new_idx % 8);
+            has_nulls = true;
+        }
+    }
+
+    let mut keep = keep.into_iter();
+    series.points.as_owned().retain(|_| keep.next().unwrap());
+    series.num_points = kept as _;
+    series.null_val = null_val.into();
+    if !has_nulls {
+        series.flags &= !FLAG_HAS_NULLS;
+    }
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From a22581be21d6981a21d55718c2d979b7c081913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 13/37] fix: map that moves points in time updates the series'
 sorted flag

---
 extension/src/time_vector/pipeline/map.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..a856a6e 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,15 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+
+    if !only_val {
+        // the points moved in time: find out whether they still are in order
+        if series.points.as_slice().is_sorted_by_key(|p| p.ts) {
+            series.flags |= FLAG_IS_SORTED;
+        } else {
+            series.flags &= !FLAG_IS_SORTED;
+        }
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From aba441544f2ba2c32f1d071559dbf681c43faf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 14/37] fix: sliding-window statistics recalculate when
 removing a row leaves only rounding error

---
 crates/stats-agg/src/lib.rs     | 6 ++++++
 crates/stats-agg/src/stats1d.rs | 9 ++++++++-
 crates/stats-agg/src/stats2d.rs | 8 +++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/stats-agg/src/lib.rs b/crates/stats-agg/src/lib.rs
index ea069c3..570bbc4 100644
--- a/crates/stats-agg/src/lib.rs
+++ b/crates/stats-agg/src/lib.rs
@@ -56,6 +56,12 @@ const INV_FLOATING_ERROR_THRESHOLD: f64 = 0.99;
 #[cfg(test)] // don't have a threshold for tests, to ensure the inverse function is better tested
 const INV_FLOATING_ERROR_THRESHOLD: f64 = f64::INFINITY;
 
+// The same threshold for a sum of squared deviations: when nearly all of it came from what is being removed, what is
+// left after the subtraction is mostly floating point error (it can even be negative), so we should recalculate.
+fn loses_precision<T: FloatLike>(before: T, after: T) -> bool {
+    after < before * T::lit(1.0 - INV_FLOATING_ERROR_THRESHOLD)
+}
+
 pub mod stats1d;
 pub mod stats2d;
 
diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index c91da00..9d00698 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -1,4 +1,4 @@
-use crate::{m3, m4, FloatLike, StatsError, TwoFloat, INV_FLOATING_ERROR_THRESHOLD};
+use crate::{loses_precision, m3, m4, FloatLike, StatsError, TwoFloat, INV_FLOATING_ERROR_THRESHOLD};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Serialize, Deserialize)]
@@ -169,6 +169,9 @@ where
         let tmpx = p * self.n64() - self.sx;
         let scale = (self.n64() * new.n64()).recip();
         new.sx2 = self.sx2 - tmpx * tmpx * scale;
+        if loses_precision(self.sx2, new.sx2) {
+            return None;
+        }
         new.sx3 = m3::remove(new.n64(), new.sx, new.sx2, self.sx3, p);
         new.sx4 = m4::remove(new.n64(), new.sx, new.sx2, new.sx3, self.sx4, p);
 
@@ -286,6 +289,10 @@ where
             remove.sx4,
         );
 
+        if loses_precision(combined.sx2, part.sx2) {
+            return None;
+        }
+
         Some(part)
     }
 
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index fe6e1e1..ad40d81 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -1,6 +1,6 @@
 // 2D stats are based on the Youngs-Cramer implementation in PG here:
 // https://github.com/postgres/postgres/blob/472e518a44eacd9caac7d618f1b6451672ca4481/src/backend/utils/adt/float.c#L3260
-use crate::{m3, m4, FloatLike, StatsError, XYPair, INV_FLOATING_ERROR_THRESHOLD};
+use crate::{loses_precision, m3, m4, FloatLike, StatsError, XYPair, INV_FLOATING_ERROR_THRESHOLD};
 use serde::{Deserialize, Serialize};
 use twofloat::TwoFloat;
 
@@ -236,6 +236,9 @@ impl<T: FloatLike> StatsSummary2D<T> {
         new.sy3 = m3::remove(new.n64(), new.sy, new.sy2, self.sy3, p.y);
         new.sy4 = m4::remove(new.n64(), new.sy, new.sy2, new.sy3, self.sy4, p.y);
         new.sxy = self.sxy - tmpx * tmpy * scale;
+        if loses_precision(self.sx2, new.sx2) || loses_precision(self.sy2, new.sy2) {
+            return None;
+        }
         Some(new)
     }
 
@@ -430,6 +433,9 @@ impl<T: FloatLike> StatsSummary2D<T> {
         );
         part.sxy =
             combined.sxy - remove.sxy - part.n64() * remove.n64() * tmpx * tmpy / combined.n64();
+        if loses_precision(combined.sx2, part.sx2) || loses_precision(combined.sy2, part.sy2) {
+            return None;
+        }
         Some(part)
     }
 
-- 
2.43.0


From f6dd38fba5ffe2c5d22c97ec551157dfbcf7cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 15/37] fix: rollup accepts heartbeat aggregates without live
 ranges

---
 extension/src/heartbeat_agg.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 6d49f7b..c5c0851 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,15 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        // An aggregate can be without live ranges, e.g. after trim_to
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
-- 
2.43.0


From b22491f6b7c39d07c85a94d12ffc2e8efe0204e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 16/37] fix: interpolating a trimmed heartbeat aggregate stays
 within its bounds

---
 extension/src/heartbeat_agg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index c5c0851..20298f9 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -273,7 +273,8 @@ impl HeartbeatAgg<'_> {
     fn interpolate_start(&mut self, pred: &Self) {
         // only allow interpolation of non-overlapping ranges
         assert!(pred.end_time <= self.start_time);
-        let pred_end = pred.last_seen + self.interval_len;
+        // a trimmed aggregate may be shorter than the liveness interval
+        let pred_end = min(pred.last_seen + self.interval_len, self.end_time);
 
         if pred_end <= self.start_time {
             return;
-- 
2.43.0


From 4fbb951edbfeb2582ea38d728d4028ffbf124029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 17/37] fix: uddsketch stops compacting once no buckets can be
 combined

---
 crates/udd-sketch/src/lib.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index dfd53fa..d029ff7 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -223,6 +223,11 @@ impl SketchHashMap {
         self.map.len()
     }
 
+    /// Whether compacting would still change any of the keys
+    fn is_compactable(&self) -> bool {
+        self.map.keys().any(|key| key.compact_key() != *key)
+    }
+
     /// Combine adjacent buckets using the stack.
     fn compact_using_stack<const N: usize>(&mut self) {
         let len = self.map.len();
@@ -402,6 +407,15 @@ impl UDDSketch {
         self.alpha = 2.0 * self.alpha / (1.0 + self.alpha.powi(2)); // See https://arxiv.org/pdf/2004.08604.pdf Equation 4
     }
 
+    /// Compact the buckets until they fit the limit, or until there is nothing left to combine: the
+    /// buckets nearest to one (on either side, and for either sign), zero and infinity stay apart.
+    fn compact_to_fit(&mut self) {
+        while self.buckets.len() > self.max_buckets.get() as usize && self.buckets.is_compactable()
+        {
+            self.compact_buckets();
+        }
+    }
+
     pub fn bucket_iter(&self) -> SketchHashIterator<'_> {
         self.buckets.iter()
     }
@@ -411,9 +425,7 @@ impl UDDSketch {
     pub fn add_value(&mut self, value: f64) {
         self.buckets.increment(self.key(value));
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_fit();
 
         self.num_values += 1;
         self.values_sum += value;
@@ -457,9 +469,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, count);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_fit();
 
         self.num_values += other.values;
         self.values_sum += other.sum;
@@ -501,9 +511,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, value);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_fit();
 
         self.num_values += other.num_values;
         self.values_sum += other.values_sum;
-- 
2.43.0


From df5b7c2bae2011c82067dfb52593ec2d2e97f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 18/37] fix: hyperloglog turns dense whenever the sparse form
 outgrows it

The overflow check only ran when the insertion buffer was flushed, and merging
two sparse sketches forgot an overflow unless the last value caused it, so
rollups and repeated values could give a different distinct_count for the same
set of values than one pass over it.
---
 crates/hyperloglogplusplus/src/lib.rs    | 11 ++++++++---
 crates/hyperloglogplusplus/src/sparse.rs | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/hyperloglogplusplus/src/lib.rs b/crates/hyperloglogplusplus/src/lib.rs
index 2cafefb..9de7e7d 100644
--- a/crates/hyperloglogplusplus/src/lib.rs
+++ b/crates/hyperloglogplusplus/src/lib.rs
@@ -100,9 +100,14 @@ impl<'s, T, B> HyperLogLog<'s, T, B> {
     }
 
     pub fn merge_all(&mut self) {
-        match &mut self.storage {
-            HyperLogLogStorage::Sparse(s) => s.merge_buffers(),
-            HyperLogLogStorage::Dense(_) => {}
+        if let HyperLogLogStorage::Sparse(s) = &mut self.storage {
+            s.merge_buffers();
+            // Values are buffered, so without this check whether we have switched to the dense
+            // representation would depend on the order and grouping in which they arrived.
+            if s.is_overflowing() {
+                let dense = s.to_dense();
+                self.storage = HyperLogLogStorage::Dense(dense);
+            }
         }
     }
 
diff --git a/crates/hyperloglogplusplus/src/sparse.rs b/crates/hyperloglogplusplus/src/sparse.rs
index 5e50c7f..83d1094 100644
--- a/crates/hyperloglogplusplus/src/sparse.rs
+++ b/crates/hyperloglogplusplus/src/sparse.rs
@@ -73,15 +73,23 @@ impl<'s> Storage<'s> {
 
     fn add_encoded(&mut self, encoded: Encoded) -> Overflowing {
         self.to_merge.insert(encoded);
-        let max_sparse_bitsize = (1u64 << self.precision) * 6;
         // TODO what threshold?
-        if self.to_merge.len() as u64 * 32 > max_sparse_bitsize / 4 {
+        if self.to_merge.len() as u64 * 32 > self.max_sparse_bitsize() / 4 {
             self.merge_buffers();
-            return self.compressed.num_bytes() as u64 * 8 > max_sparse_bitsize;
+            return self.is_overflowing();
         }
         false
     }
 
+    fn max_sparse_bitsize(&self) -> u64 {
+        (1u64 << self.precision) * 6
+    }
+
+    /// Whether the merged values need more space than the dense representation would.
+    pub(crate) fn is_overflowing(&self) -> Overflowing {
+        self.compressed.num_bytes() as u64 * 8 > self.max_sparse_bitsize()
+    }
+
     pub fn estimate_count(&mut self) -> u64 {
         self.merge_buffers();
         self.immutable_estimate_count()
@@ -183,7 +191,7 @@ impl<'s> Storage<'s> {
 
         let mut overflowing = false;
         for encoded in other.iter() {
-            overflowing = self.add_encoded(encoded)
+            overflowing |= self.add_encoded(encoded)
         }
         overflowing
     }
-- 
2.43.0


From 3a91f2696acd429ebefd4e086b900ca983174271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 19/37] fix: lttb averages timestamps without overflowing

The sum of the timestamps of a bucket was kept in an i64 and wrapped once a
bucket held some 15000 points of the present era, so lttb (aggregate and
timevector form) picked the wrong points.
---
 extension/src/lttb.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 36022d7..3704330 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -281,7 +281,8 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // i128: the sum of many microsecond timestamps does not fit an i64.
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -296,10 +297,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            avg_x += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -368,7 +369,8 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // i128: the sum of many microsecond timestamps does not fit an i64.
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -384,10 +386,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            avg_x += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From 14169ea35689969ec2c4fdab8e5e85d34611d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:05 +0000
Subject: [PATCH 20/37] fix: deeply nested lambda expressions are rejected

Parsing or running a lambda of some hundred nested parentheses, or of a few
thousand operators, exhausted the stack and terminated the backend.
---
 .../time_vector/pipeline/lambda/executor.rs   |  3 +
 .../src/time_vector/pipeline/lambda/parser.rs | 88 ++++++++++++++++---
 2 files changed, 80 insertions(+), 11 deletions(-)

diff --git a/extension/src/time_vector/pipeline/lambda/executor.rs b/extension/src/time_vector/pipeline/lambda/executor.rs
index 599b468..3b0cd2c 100644
--- a/extension/src/time_vector/pipeline/lambda/executor.rs
+++ b/extension/src/time_vector/pipeline/lambda/executor.rs
@@ -82,6 +82,9 @@ where
             return value.clone();
         }
 
+        // a variable's expression can force further variables
+        unsafe { pg_sys::check_stack_depth() };
+
         let value = self.exec_expression(&self.exprs.variables[i], value, time);
         self.var_vals[i] = Some(value.clone());
         value
diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index e16521f..004a1b4 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -34,27 +34,88 @@ use UnaryOp::*;
 #[grammar = "time_vector/pipeline/lambda/lambda_expr.pest"] // relative to src
 pub struct ExpressionParser;
 
+// Both parsing and executing an expression recurse into its sub-expressions, so
+// an expression that nests too deeply would exhaust the backend's stack. The
+// first limit is on parentheses and prefix operators within each other, the
+// second also counts the operators of a sequence such as `1 + 2 + 3`.
+const MAX_NESTING: usize = 128;
+const MAX_DEPTH: usize = 1000;
+
 pub fn parse_expression(input: &str) -> Expression {
+    check_nesting(input);
     let parsed = ExpressionParser::parse(calculation, input).unwrap_or_else(|e| panic!("{}", e));
 
     let mut variables = Vec::new();
-    let expr = build_expression(parsed, &mut variables, &mut HashMap::new());
+    let expr = build_expression(parsed, &mut variables, &mut HashMap::new(), 0);
     Expression { variables, expr }
 }
 
+// The generated parser recurses for every parenthesis and prefix operator, so
+// this has to be checked before it runs.
+fn check_nesting(input: &str) {
+    let mut rest = input;
+    let mut depth = 0_usize;
+    // number of prefix operators in front of the current term, and in front of
+    // each of the parentheses around it
+    let mut prefixes = 0;
+    let mut enclosing = vec![];
+    while let Some(next) = rest.chars().next() {
+        let mut len = next.len_utf8();
+        match next {
+            '(' => {
+                enclosing.push(prefixes);
+                prefixes = 0;
+                depth += 1;
+            }
+            ')' => {
+                depth -= prefixes;
+                prefixes = 0;
+                if let Some(outer) = enclosing.pop() {
+                    depth -= outer + 1;
+                }
+            }
+            '-' => {
+                prefixes += 1;
+                depth += 1;
+            }
+            'n' | 'N' if rest.get(..3).is_some_and(|s| s.eq_ignore_ascii_case("not")) => {
+                prefixes += 1;
+                depth += 1;
+                len = 3;
+            }
+            _ if next.is_ascii_whitespace() => (),
+            _ => {
+                if next == '\'' {
+                    len += rest[1..].find('\'').map_or(rest.len() - 1, |end| end + 1);
+                }
+                depth -= prefixes;
+                prefixes = 0;
+            }
+        }
+        if depth > MAX_NESTING {
+            panic!("lambda expression is nested too deeply")
+        }
+        rest = &rest[len..];
+    }
+}
+
 // main parsing function.
 fn build_expression<'a>(
     parsed: Pairs<'a, Rule>,
     var_expressions: &mut Vec<ExpressionSegment>,
     known_vars: &mut HashMap<&'a str, (Type, usize)>,
+    depth: usize,
 ) -> ExpressionSegment {
     // Everything except binary operations are handled by `parse_primary()`
     // when we encounter a sequence of binary operations eg `<> + <> * <>`
     // the `(Expression, op, Expression)` triple is passed to `build_binary_op()`
     // in descending precedence order.
+
+    // operators and operands alternate, and each operator can add a level
+    let depth = depth + parsed.clone().count() / 2;
     PREC_CLIMBER.climb(
         parsed,
-        |pair| parse_primary(pair, var_expressions, known_vars),
+        |pair| parse_primary(pair, var_expressions, known_vars, depth),
         |left: ExpressionSegment, op: Pair<Rule>, right: ExpressionSegment| {
             build_binary_op(op, left, right)
         },
@@ -67,6 +128,7 @@ fn parse_primary<'a>(
     pair: Pair<'a, Rule>,
     var_expressions: &mut Vec<ExpressionSegment>,
     known_vars: &mut HashMap<&'a str, (Type, usize)>,
+    depth: usize,
 ) -> ExpressionSegment {
     // HOW TO READ:
     //   every rule (the left hand side of the `=` in the `.pest` file) has a
@@ -80,6 +142,10 @@ fn parse_primary<'a>(
     //       `bar` and one for `qux`. These 'Pair's can be passed back to
     //       `parse_primary()` to parse them into `Expression`s for further
     //       handling.
+    if depth > MAX_DEPTH {
+        panic!("lambda expression is nested too deeply")
+    }
+
     match pair.as_rule() {
         num => {
             let val: f64 = pair.as_str().parse().unwrap();
@@ -117,7 +183,7 @@ fn parse_primary<'a>(
                 .unwrap_or_else(|| panic!("unknown function: {}", func_name.as_str()));
 
             let args: Vec<_> = pairs
-                .map(|p| parse_primary(p, var_expressions, known_vars))
+                .map(|p| parse_primary(p, var_expressions, known_vars, depth + 1))
                 .collect();
             if args.len() != num_args {
                 panic!(
@@ -133,7 +199,7 @@ fn parse_primary<'a>(
 
         neg => {
             let value = pair.into_inner().next().unwrap();
-            let value = parse_primary(value, var_expressions, known_vars);
+            let value = parse_primary(value, var_expressions, known_vars, depth + 1);
             if value.ty() != &Double {
                 panic!("can only apply `-` to a DOUBLE PRECISION")
             }
@@ -142,7 +208,7 @@ fn parse_primary<'a>(
 
         not => {
             let value = pair.into_inner().next().unwrap();
-            let value = parse_primary(value, var_expressions, known_vars);
+            let value = parse_primary(value, var_expressions, known_vars, depth + 1);
             if value.ty() != &Bool {
                 panic!("can only apply NOT to a BOOLEAN")
             }
@@ -150,7 +216,7 @@ fn parse_primary<'a>(
         }
 
         // pass the sequence of binary operation to the precedence_climber to handle
-        binops => build_expression(pair.into_inner(), var_expressions, known_vars),
+        binops => build_expression(pair.into_inner(), var_expressions, known_vars, depth + 1),
 
         let_expr => {
             let mut pairs = pair.into_inner();
@@ -161,11 +227,11 @@ fn parse_primary<'a>(
                 // in the first state, otherwise we must be in the second.
                 let var_name_or_expr = pairs.next().unwrap();
                 let var_value = match pairs.next() {
-                    None => return parse_primary(var_name_or_expr, var_expressions, known_vars),
+                    None => return parse_primary(var_name_or_expr, var_expressions, known_vars, depth + 1),
                     Some(val) => val,
                 };
 
-                let var_value = parse_primary(var_value, var_expressions, known_vars);
+                let var_value = parse_primary(var_value, var_expressions, known_vars, depth + 1);
 
                 let var_name = var_name_or_expr.as_str();
                 known_vars
@@ -184,15 +250,15 @@ fn parse_primary<'a>(
             // expression.
             let mut pairs = pair.into_inner();
             let first = pairs.next().unwrap();
-            let first_val = parse_primary(first, var_expressions, known_vars);
+            let first_val = parse_primary(first, var_expressions, known_vars, depth + 1);
             match pairs.next() {
                 None => first_val,
                 Some(pair) => {
                     let mut vals = vec![first_val];
-                    let val = parse_primary(pair, var_expressions, known_vars);
+                    let val = parse_primary(pair, var_expressions, known_vars, depth + 1);
                     vals.push(val);
                     for p in pairs {
-                        let val = parse_primary(p, var_expressions, known_vars);
+                        let val = parse_primary(p, var_expressions, known_vars, depth + 1);
                         vals.push(val);
                     }
                     let ty = Tuple(vals.iter().map(|v| v.ty().clone()).collect());
-- 
2.43.0


From 889e6d2b579e86204b74a24f2d96bea1f122599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:05 +0000
Subject: [PATCH 21/37] fix: lambda variables may have names starting with
 $time or $value

---
 extension/src/time_vector/pipeline/lambda/lambda_expr.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
index 1d16b06..2e2f749 100644
--- a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
+++ b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
@@ -34,8 +34,8 @@ operation = _{
 num = @{ int ~ ("." ~ ASCII_DIGIT*)? ~ (^"e" ~ int)? }
     int = { ("+" | "-")? ~ ASCII_DIGIT+ }
 
-time_var = @{ ^"$time" }
-val_var = @{ ^"$value" }
+time_var = @{ ^"$time" ~ !(ASCII_ALPHANUMERIC | "_") }
+val_var = @{ ^"$value" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 time = @{ string ~ "t" }
 interval = @{ string ~ "i" }
-- 
2.43.0


From 7d595e2621a7edef73448ae5de1af4272ebdfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 22/37] fix: pipeline statistics check the series they
 summarise for NULLs

---
 extension/src/time_vector/pipeline/aggregation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/aggregation.rs b/extension/src/time_vector/pipeline/aggregation.rs
index 2cb0882..6add831 100644
--- a/extension/src/time_vector/pipeline/aggregation.rs
+++ b/extension/src/time_vector/pipeline/aggregation.rs
@@ -107,10 +107,10 @@ pub fn arrow_run_pipeline_then_stats_agg<'a>(
     mut timevector: Timevector_TSTZ_F64<'a>,
     pipeline: toolkit_experimental::PipelineThenStatsAgg<'a>,
 ) -> StatsSummary1D {
+    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     if timevector.has_nulls() {
         panic!("Unable to compute stats aggregate over timevector containing nulls");
     }
-    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     let mut stats = InternalStatsSummary1D::new();
     for TSPoint { val, .. } in timevector.iter() {
         stats_agg::unwrap_stats_result(stats.accum(val));
-- 
2.43.0


From 0d067e4b83f0b3e783a14cf335cdbbda3fc04f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:08 +0000
Subject: [PATCH 23/37] fix: max_n and min_n partial states over no rows can be
 sent between processes

---
 extension/src/nmost/max_float.rs | 4 ++--
 extension/src/nmost/max_int.rs   | 4 ++--
 extension/src/nmost/max_time.rs  | 4 ++--
 extension/src/nmost/min_float.rs | 4 ++--
 extension/src/nmost/min_int.rs   | 4 ++--
 extension/src/nmost/min_time.rs  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 8c2a955..6aca9e0 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -95,13 +95,13 @@ pub fn max_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MaxFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxFloatTransType = crate::do_deserialize!(bytes, MaxFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 5cd777f..639acfc 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -89,13 +89,13 @@ pub fn max_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MaxIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxIntTransType = crate::do_deserialize!(bytes, MaxIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index d36382b..24f6396 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -90,13 +90,13 @@ pub fn max_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MaxTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxTimeTransType = crate::do_deserialize!(bytes, MaxTimeTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index 0a3c8ab..93443e5 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -94,13 +94,13 @@ pub fn min_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MinFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinFloatTransType = crate::do_deserialize!(bytes, MinFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index 93ea5f1..d709cf7 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -81,13 +81,13 @@ pub fn min_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MinIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinIntTransType = crate::do_deserialize!(bytes, MinIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index 6d892a0..dccc4e7 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -81,13 +81,13 @@ pub fn min_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MinTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinTimeTransType = crate::do_deserialize!(bytes, MinTimeTransType);
     Internal::new(i).into()
-- 
2.43.0


From e72e7375196d15d881ec42c579cff458b67794be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 24/37] fix: summaries read stored text values that need
 escaping

---
 extension/src/datum_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index b92b4af..a37f432 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -341,8 +341,8 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
 
                 let mut data = vec![];
-                while let Some(next) = seq.next_element::<&str>()? {
-                    data.push(reader.read_datum(next));
+                while let Some(next) = seq.next_element::<String>()? {
+                    data.push(reader.read_datum(&next));
                 }
 
                 Ok((oid, data).into())
-- 
2.43.0


From 059483afeb2a3a86e6d6146e963da878c5f019d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 25/37] fix: combining tdigest states keeps their buffered
 values

---
 crates/t-digest/src/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index f21dd7b..161f40a 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -727,15 +727,11 @@ impl Builder {
         std::mem::take(&mut self.digested)
     }
 
-    pub fn merge(&mut self, other: Self) {
+    pub fn merge(&mut self, mut other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
+        self.digest();
+        other.digest();
         let digvec = vec![std::mem::take(&mut self.digested), other.digested];
-        if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
-        }
-        if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
-        }
         self.digested = TDigest::merge_digests(digvec);
     }
 }
-- 
2.43.0


From 8ae84d2a4e4a360d5d33aeb7fe812e44474bfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 26/37] fix: tdigest's final function leaves its transition
 state usable

---
 extension/src/tdigest.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/tdigest.rs b/extension/src/tdigest.rs
index 07d9f1a..a74de0f 100644
--- a/extension/src/tdigest.rs
+++ b/extension/src/tdigest.rs
@@ -186,12 +186,12 @@ impl<'input> TDigest<'input> {
 fn tdigest_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TDigest<'static>> {
     unsafe {
         in_aggregate_context(fcinfo, || {
-            let mut state = state;
-            let state: &mut tdigest::Builder = match state.get_mut() {
+            let state: &tdigest::Builder = match state.get() {
                 None => return None,
                 Some(state) => state,
             };
-            TDigest::from_internal_tdigest(&state.build()).into()
+            // the state may go on to take more rows, so leave it as it is
+            TDigest::from_internal_tdigest(&state.clone().build()).into()
         })
     }
 }
-- 
2.43.0


From a200e6b71aac47c01dbe446a80e8f41923557a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 27/37] fix: a range bound of infinity wrapped around

An inclusive upper bound of 'infinity' is the largest i64, so making it
exclusive overflowed to the smallest one and every point fell outside the
bounds.
---
 extension/src/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/range.rs b/extension/src/range.rs
index dad3ad7..7c97abc 100644
--- a/extension/src/range.rs
+++ b/extension/src/range.rs
@@ -28,7 +28,7 @@ pub unsafe fn get_range(range: tstzrange) -> Option<I64Range> {
         range_bytes = &range_bytes[8..];
         let mut left = i64::from_ne_bytes(bytes);
         if !lbound_inclusive(flags) {
-            left += 1;
+            left = left.saturating_add(1);
         }
         range.left = Some(left);
     }
@@ -36,7 +36,7 @@ pub unsafe fn get_range(range: tstzrange) -> Option<I64Range> {
         let bytes = range_bytes[..8].try_into().unwrap();
         let mut right = i64::from_ne_bytes(bytes);
         if rbound_inclusive(flags) {
-            right += 1;
+            right = right.saturating_add(1);
         }
         range.right = Some(right);
     }
-- 
2.43.0


From def45dea6eaeb61bab4a6527a05813ef2b81c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 28/37] fix: days_in_month and month_normalize miscounted some
 months

The length of the month was the day field of a difference of two
timestamps, which is a day short in a month where the session's time zone
springs forward. month_normalize also measured from the reference date
rather than from the start of its month, so January 31 was taken for a
28 day month.
---
 extension/src/utilities.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index 70e9fb2..b4749b9 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -93,7 +93,7 @@ extension_sql!(
 CREATE FUNCTION days_in_month(date timestamptz) RETURNS int
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - date_trunc('month', $1))) AS INTEGER)
+SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - interval '1 day')) AS INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name = "days_in_month",
@@ -105,7 +105,7 @@ extension_sql!(
 CREATE FUNCTION month_normalize(metric float8, reference_date timestamptz, days float8 DEFAULT 365.25/12) RETURNS float8
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT metric * days / CAST(EXTRACT('day' FROM (reference_date + interval '1 month' - reference_date)) as INTEGER)
+SELECT metric * days / CAST(EXTRACT('day' FROM (date_trunc('month', reference_date) + interval '1 month' - interval '1 day')) AS INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name="month_normalize",
-- 
2.43.0


From 02010913a20924a4344a7be40ea9bee00420cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 29/37] fix: rolling up frequency aggregates of different types
 crashed the server

combine() looked up the values of one aggregate by the type of the other, so
e.g. an int was passed to the hash function of text.
---
 extension/src/frequency.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 9ce1f34..506e167 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -347,6 +347,11 @@ impl SpaceSavingTransState {
     }
 
     fn combine(one: &SpaceSavingTransState, two: &SpaceSavingTransState) -> SpaceSavingTransState {
+        // Values of one type must not be hashed and compared as values of another.
+        if one.type_oid() != two.type_oid() {
+            pgrx::error!("mismatched types");
+        }
+
         // This takes an entry from a TransState, updates it with any state from the other TransState, and adds the result into the map
         fn new_entry(
             entry: &SpaceSavingEntry,
-- 
2.43.0


From 4924196978bb9f98aad0a2c02312468709015fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 30/37] fix: a bad timestamp inside a summary's text crashed
 the server

The error PostgreSQL raises for it unwinds through functions declared
extern "C", which aborts the process.
---
 crates/tspoint/src/lib.rs      | 4 ++--
 extension/src/serialization.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tspoint/src/lib.rs b/crates/tspoint/src/lib.rs
index 7684495..8c8c5d9 100644
--- a/crates/tspoint/src/lib.rs
+++ b/crates/tspoint/src/lib.rs
@@ -35,7 +35,7 @@ impl Serialize for TSPoint {
     {
         if serializer.is_human_readable() {
             // FIXME ugly hack to use postgres functions in an non-postgres library
-            unsafe extern "C" {
+            unsafe extern "C-unwind" {
                 fn _ts_toolkit_encode_timestamptz(dt: i64, buf: &mut [u8; 128]);
             }
             let mut ts = [0; 128];
@@ -70,7 +70,7 @@ impl<'de> Deserialize<'de> for TSPoint {
         }
 
         // FIXME ugly hack to use postgres functions in an non-postgres library
-        unsafe extern "C" {
+        unsafe extern "C-unwind" {
             // this is only going to be used to communicate with a rust lib we compile with this one
             #[allow(improper_ctypes)]
             fn _ts_toolkit_decode_timestamptz(text: &str) -> i64;
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..1ce6d8c 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -16,7 +16,7 @@ mod types;
 
 // basically timestamptz_out
 #[unsafe(no_mangle)]
-pub extern "C" fn _ts_toolkit_encode_timestamptz(
+pub extern "C-unwind" fn _ts_toolkit_encode_timestamptz(
     dt: pg_sys::TimestampTz,
     buf: &mut [c_char; pg_sys::MAXDATELEN as _],
 ) {
@@ -54,7 +54,7 @@ pub extern "C" fn _ts_toolkit_encode_timestamptz(
 #[unsafe(no_mangle)]
 // this is only going to be used to communicate with a rust lib we compile with this one
 #[allow(improper_ctypes_definitions)]
-pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
+pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
     use std::{ffi::CString, mem::MaybeUninit, ptr};
     let str = CString::new(text).unwrap();
     unsafe {
-- 
2.43.0


From 1520ee19464869fbc421e0e9b454706b39d2239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 31/37] fix: an unknown time zone inside a summary's text
 crashed the server

DateTimeParseError reads the zone's name from the extra information, which
was passed as NULL.
---
 extension/src/serialization.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 1ce6d8c..5bfb5f0 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -89,8 +89,9 @@ pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
             )
         }
         #[cfg(not(feature = "pg15"))]
+        let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
+        #[cfg(not(feature = "pg15"))]
         if dterr == 0 {
-            let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
             dterr = pg_sys::DecodeDateTime(
                 field.as_mut_ptr(),
                 ftype.as_mut_ptr(),
@@ -115,7 +116,7 @@ pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
         if dterr != 0 {
             pg_sys::DateTimeParseError(
                 dterr,
-                core::ptr::null_mut(),
+                &mut extra as *mut pgrx::pg_sys::DateTimeErrorExtra,
                 str.as_ptr(),
                 c"timestamptz".as_ptr().cast::<c_char>(),
                 core::ptr::null_mut(),
-- 
2.43.0


From 212ace160938803603fb4028aeb4376295f1d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 32/37] fix: topn with a NULL of another type crashed the
 server

---
 extension/src/frequency.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 506e167..1567d31 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1445,13 +1445,30 @@ fn validate_topn_for_mcv_agg(
     }
 }
 
-#[pg_extern(immutable, parallel_safe)]
+// A NULL carries no type of its own, so for one look at how the argument was declared.
+fn check_declared_type(fcinfo: pg_sys::FunctionCallInfo, argument: i32, type_oid: u32) {
+    let declared = unsafe { pg_sys::get_fn_expr_argtype((*fcinfo).flinfo, argument) };
+    if declared != Oid::INVALID && declared.to_u32() != type_oid {
+        pgrx::error!("mischatched types")
+    }
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+fn topn_checked(
+    agg: SpaceSavingAggregate<'_>,
+    n: i32,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    check_declared_type(fcinfo, 2, agg.type_oid);
+    topn(agg, n, ty)
+}
+
 pub fn topn(
     agg: SpaceSavingAggregate<'_>,
     n: i32,
     ty: Option<AnyElement>,
 ) -> SetOfIterator<'_, AnyElement> {
-    // If called with a NULL, assume type matches
     if ty.is_some() && ty.unwrap().oid().to_u32() != agg.type_oid {
         pgrx::error!("mischatched types")
     }
@@ -1482,6 +1499,15 @@ pub fn topn(
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
+fn default_topn_checked(
+    agg: SpaceSavingAggregate<'_>,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    check_declared_type(fcinfo, 1, agg.type_oid);
+    default_topn(agg, ty)
+}
+
 pub fn default_topn(
     agg: SpaceSavingAggregate<'_>,
     ty: Option<AnyElement>,
-- 
2.43.0


From c569311ef1c75d3fe182b83976463236e97f2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 33/37] fix: max_n_by and min_n_by over cstring values read
 past them and crashed the server

---
 extension/src/datum_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index a37f432..0627419 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -26,6 +26,9 @@ pub(crate) unsafe fn deep_copy_datum(datum: Datum, typoid: Oid) -> Datum {
         let copy = unsafe { pg_sys::palloc0(size) };
         unsafe { std::ptr::copy(datum.cast_mut_ptr(), copy as *mut u8, size) };
         pg_sys::Datum::from(copy)
+    } else if unsafe { (*tentry).typlen } == -2 {
+        // not a varlena, and not something a DatumStore can hold
+        pgrx::error!("null-terminated string types are not supported")
     } else {
         pg_sys::Datum::from(unsafe { pg_sys::pg_detoast_datum_copy(datum.cast_mut_ptr()) })
     }
-- 
2.43.0


From df09603b80a78ce7c65a71defd9d8bfe803cdb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 34/37] fix: hyperloglog over a nondeterministic collation
 counted equal strings apart

---
 extension/src/datum_utils.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index 0627419..fa6bf4b 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -162,20 +162,21 @@ impl DatumHashBuilder {
             size_of::<pg_sys::FunctionCallInfoBaseData>() + size_of::<pg_sys::NullableDatum>() * 2;
         let info = unsafe { pg_sys::palloc0(size) } as pg_sys::FunctionCallInfo;
 
+        let collation = match collation {
+            Some(collation) => collation,
+            None => unsafe { (*tentry).typcollation },
+        };
+
         unsafe {
             (*info).flinfo = flinfo as *const pg_sys::FmgrInfo as *mut pg_sys::FmgrInfo;
             (*info).context = std::ptr::null_mut();
             (*info).resultinfo = std::ptr::null_mut();
-            (*info).fncollation = (*tentry).typcollation;
+            // equal values must hash alike, and equality depends on the collation
+            (*info).fncollation = collation;
             (*info).isnull = false;
             (*info).nargs = 1;
         }
 
-        let collation = match collation {
-            Some(collation) => collation,
-            None => unsafe { (*tentry).typcollation },
-        };
-
         Self {
             info,
             type_id: unsafe { (*tentry).type_id },
-- 
2.43.0


From 7370c4b779b2dc3c90aa642f40ffd2c4b8f2195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 35/37] fix: stats_agg reports an overflow whose terms cancel
 to NaN

---
 crates/stats-agg/src/lib.rs     |  4 ++++
 crates/stats-agg/src/stats1d.rs | 19 ++++++++++---------
 crates/stats-agg/src/stats2d.rs | 27 +++++++++++++++------------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/crates/stats-agg/src/lib.rs b/crates/stats-agg/src/lib.rs
index 570bbc4..f7b5ac7 100644
--- a/crates/stats-agg/src/lib.rs
+++ b/crates/stats-agg/src/lib.rs
@@ -62,6 +62,10 @@ fn loses_precision<T: FloatLike>(before: T, after: T) -> bool {
     after < before * T::lit(1.0 - INV_FLOATING_ERROR_THRESHOLD)
 }
 
+fn non_finite<T: FloatLike>(values: &[T]) -> bool {
+    values.iter().any(|v| v.is_nan() || v.is_infinite())
+}
+
 pub mod stats1d;
 pub mod stats2d;
 
diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index 9d00698..0b80728 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -1,4 +1,7 @@
-use crate::{loses_precision, m3, m4, FloatLike, StatsError, TwoFloat, INV_FLOATING_ERROR_THRESHOLD};
+use crate::{
+    loses_precision, m3, m4, non_finite, FloatLike, StatsError, TwoFloat,
+    INV_FLOATING_ERROR_THRESHOLD,
+};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Serialize, Deserialize)]
@@ -79,7 +82,7 @@ where
             self.sx3 = m3::accum(old.n64(), old.sx, old.sx2, old.sx3, p);
             self.sx4 = m4::accum(old.n64(), old.sx, old.sx2, old.sx3, old.sx4, p);
 
-            if self.has_infinite() {
+            if self.has_non_finite() {
                 if self.check_overflow(&old, p) {
                     return Err(StatsError::DoubleOverflow);
                 }
@@ -109,16 +112,14 @@ where
         Result::Ok(())
     }
 
-    fn has_infinite(&self) -> bool {
-        self.sx.is_infinite()
-            || self.sx2.is_infinite()
-            || self.sx3.is_infinite()
-            || self.sx4.is_infinite()
+    // An overflow does not always show as an infinity: intermediate terms that overflow can also cancel to NaN.
+    fn has_non_finite(&self) -> bool {
+        non_finite(&[self.sx, self.sx2, self.sx3, self.sx4])
     }
 
     fn check_overflow(&self, old: &Self, p: T) -> bool {
         //Only report overflow if we have finite inputs that lead to infinite results.
-        self.has_infinite() && old.sx.is_finite() && p.is_finite()
+        self.has_non_finite() && old.sx.is_finite() && p.is_finite()
     }
 
     // inverse transition function (inverse of accum) for windowed aggregates, return None if we want to re-calculate from scratch
@@ -232,7 +233,7 @@ where
                 other.sx4,
             ),
         };
-        if r.has_infinite() && !self.has_infinite() && !other.has_infinite() {
+        if r.has_non_finite() && !self.has_non_finite() && !other.has_non_finite() {
             return Err(StatsError::DoubleOverflow);
         }
         Ok(r)
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index ad40d81..7919bb8 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -1,6 +1,9 @@
 // 2D stats are based on the Youngs-Cramer implementation in PG here:
 // https://github.com/postgres/postgres/blob/472e518a44eacd9caac7d618f1b6451672ca4481/src/backend/utils/adt/float.c#L3260
-use crate::{loses_precision, m3, m4, FloatLike, StatsError, XYPair, INV_FLOATING_ERROR_THRESHOLD};
+use crate::{
+    loses_precision, m3, m4, non_finite, FloatLike, StatsError, XYPair,
+    INV_FLOATING_ERROR_THRESHOLD,
+};
 use serde::{Deserialize, Serialize};
 use twofloat::TwoFloat;
 
@@ -94,7 +97,7 @@ impl<T: FloatLike> StatsSummary2D<T> {
             self.sy3 = m3::accum(old.n64(), old.sy, old.sy2, old.sy3, p.y);
             self.sy4 = m4::accum(old.n64(), old.sy, old.sy2, old.sy3, old.sy4, p.y);
             self.sxy += tmpx * tmpy * scale;
-            if self.has_infinite() {
+            if self.has_non_finite() {
                 if self.check_overflow(&old, p) {
                     return Err(StatsError::DoubleOverflow);
                 }
@@ -153,21 +156,21 @@ impl<T: FloatLike> StatsSummary2D<T> {
             || self.sy4.is_infinite()
             || self.sxy.is_infinite()
     }
+    // An overflow does not always show as an infinity: intermediate terms that overflow can also cancel to NaN.
+    fn has_non_finite(&self) -> bool {
+        non_finite(&[
+            self.sx, self.sx2, self.sx3, self.sx4, self.sy, self.sy2, self.sy3, self.sy4, self.sxy,
+        ])
+    }
     fn check_overflow(&self, old: &StatsSummary2D<T>, p: XYPair<T>) -> bool {
         //Only report overflow if we have finite inputs that lead to infinite results.
-        ((self.sx.is_infinite()
-            || self.sx2.is_infinite()
-            || self.sx3.is_infinite()
-            || self.sx4.is_infinite())
+        (non_finite(&[self.sx, self.sx2, self.sx3, self.sx4])
             && old.sx.is_finite()
             && p.x.is_finite())
-            || ((self.sy.is_infinite()
-                || self.sy2.is_infinite()
-                || self.sy3.is_infinite()
-                || self.sy4.is_infinite())
+            || (non_finite(&[self.sy, self.sy2, self.sy3, self.sy4])
                 && old.sy.is_finite()
                 && p.y.is_finite())
-            || (self.sxy.is_infinite()
+            || (non_finite(&[self.sxy])
                 && old.sx.is_finite()
                 && p.x.is_finite()
                 && old.sy.is_finite()
@@ -344,7 +347,7 @@ impl<T: FloatLike> StatsSummary2D<T> {
             ),
             sxy: self.sxy + other.sxy + self.n64() * other.n64() * tmpx * tmpy / T::from_u64(n),
         };
-        if r.has_infinite() && !self.has_infinite() && !other.has_infinite() {
+        if r.has_non_finite() && !self.has_non_finite() && !other.has_non_finite() {
             return Err(StatsError::DoubleOverflow);
         }
         Ok(r)
-- 
2.43.0


From 6546fc4e48ee3c215d59c0b053d800b68eec97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 36/37] fix: rolling stats_agg recovers once a non-finite
 summary leaves the frame

---
 crates/stats-agg/src/stats1d.rs | 4 ++++
 crates/stats-agg/src/stats2d.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index 0b80728..db27a4b 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -253,6 +253,10 @@ where
         } else if combined.n < remove.n {
             panic!(); // given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // as when removing a single value, it's time to recalculate if there is a nan or an infinity in what we remove
+        if remove.has_non_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         if remove.sx / combined.sx > <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD) {
             return None;
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index 7919bb8..0604a4a 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -367,6 +367,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
         } else if combined.n < remove.n {
             panic!(); //  given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // as when removing a single value, it's time to recalculate if there is a nan or an infinity in what we remove
+        if remove.has_non_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         let thresh = <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD);
         if remove.sx / combined.sx > thresh || remove.sy / combined.sy > thresh {
-- 
2.43.0


From 6aa0d04be2632167697abcf1b5d49def47645ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 37/37] fix: read and write stored values in the database's own
 encoding

The text form of max_n_by, min_n_by, mcv_agg and freq_agg over strings
failed in a database whose encoding is not UTF-8 as soon as a value held
a character outside ASCII.
---
 extension/src/datum_utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index fa6bf4b..f74d15f 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -114,7 +114,12 @@ impl DatumFromSerializedTextReader {
     }
 
     pub fn read_datum(&mut self, datum_str: &str) -> Datum {
-        let cstr = std::ffi::CString::new(datum_str).unwrap(); // TODO: error handling
+        use crate::serialization::{EncodedStr, str_to_db_encoding};
+
+        let cstr = match str_to_db_encoding(datum_str) {
+            EncodedStr::Utf8(s) => std::ffi::CString::new(s).unwrap(), // TODO: error handling
+            EncodedStr::Other(s) => s.to_owned(),
+        };
         let cstr_ptr = cstr.as_ptr() as *mut std::os::raw::c_char;
         unsafe { pg_sys::InputFunctionCall(&mut self.flinfo, cstr_ptr, self.typ_io_param, -1) }
     }
@@ -129,7 +134,7 @@ impl Serialize for TextSerializeableDatum {
     {
         let chars = unsafe { pg_sys::OutputFunctionCall(self.1, self.0) };
         let cstr = unsafe { std::ffi::CStr::from_ptr(chars) };
-        serializer.serialize_str(cstr.to_str().unwrap())
+        serializer.serialize_str(crate::serialization::str_from_db_encoding(cstr))
     }
 }
 
-- 
2.43.0

